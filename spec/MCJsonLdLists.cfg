SPECIFICATION Spec
CONSTANTS
 Ids <- ListIds
 Types <- GraphTypes
 Vals <- ListVals
 Others = {"prop", "list", "null", "end"}
 Max = 9
INVARIANTS WellFormed Graphs Lists Emit
CHECK_DEADLOCK FALSE
