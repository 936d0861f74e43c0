INIT Init
NEXT Next
INVARIANTS SeriesWellFormed DeadEmpty
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Handles = {1, 2, 3}
 NameSet = {"a", "b", "aa"}
 MaxLen = 24
 ExportAt = 24
