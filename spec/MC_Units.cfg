INIT Init
NEXT Next
INVARIANTS Preserved RoundTrip Monotone
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = {1}
 MaxLen = 4
