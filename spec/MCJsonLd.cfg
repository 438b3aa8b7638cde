SPECIFICATION Spec
CONSTANTS
 Ids <- GraphIds
 Types <- GraphTypes
 Vals <- GraphVals
 Others = {"prop", "graph", "end"}
 Max = 10
INVARIANTS WellFormed Graphs Lists Emit
CHECK_DEADLOCK FALSE
