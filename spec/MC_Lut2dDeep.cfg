INIT Init
NEXT Next

INVARIANTS SeriesComplete Convex NodeExact Textbook

ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Handles = {1, 2}
 NameSet = {"a", "b"}
 MaxLen = 20
 ExportAt = 20
