INIT Init
NEXT Next
INVARIANTS Compose SameRotation Proper DoubleCover ReadBack
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = {1}
 MaxLen = 4
