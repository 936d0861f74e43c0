INIT Init
NEXT Next
VIEW View
INVARIANTS Additive Symmetric Moments
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Handles = {1}
 ExportAt = 0
