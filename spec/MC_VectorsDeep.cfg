INIT Init
NEXT Next
VIEW View
INVARIANTS Laws NegTwice
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = {1, 2}
 MaxLen = 5
