SPECIFICATION Spec
CONSTANTS
 Ids <- GraphIds
 Types <- GraphTypes
 Vals <- RevVals
 Others = {"prop", "rev", "graph", "end"}
 Max = 9
INVARIANTS WellFormed Graphs Lists Emit
CHECK_DEADLOCK FALSE
