INIT Init
NEXT Next
VIEW View
INVARIANTS Fresh Refused Antisym LinearExact UniformIsGeneral
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Handles = {1, 2}
 Lims <- LimsA
 MaxLen = 5
 ExportAt = 5
