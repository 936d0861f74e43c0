INIT Init
NEXT Next
VIEW View
INVARIANTS SeriesWellFormed DeadEmpty
PROPERTIES SeriesStable MoveConserves
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Handles = {1, 2}
 NameSet = {"a", "b"}
 MaxLen = 6
 ExportAt = 6
