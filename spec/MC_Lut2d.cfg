INIT Init
NEXT Next
VIEW View
INVARIANTS SeriesComplete Convex NodeExact Textbook
PROPERTIES SeriesStable
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Handles = {1}
 NameSet = {"a", "b"}
 MaxLen = 7
 ExportAt = 7
