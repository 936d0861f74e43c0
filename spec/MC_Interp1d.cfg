INIT Init
NEXT Next
VIEW View
INVARIANTS NodeExact Between Collinear LinearDies SaturateEnd ExtrapolateEnd
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Handles = {1}
 Nodes <- NodesA
 Vals <- ValsA
 Queries <- QueriesA
 MaxLen = 4
 ExportAt = 4
