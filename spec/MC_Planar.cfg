INIT Init
NEXT Next
VIEW View
INVARIANTS Inverse Compose TransBack
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = {1, 2}
 MaxLen = 4
