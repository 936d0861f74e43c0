INIT Init
NEXT Next
VIEW View
INVARIANTS RoundTrip Real Parseval HalfIsPrefix
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = {1, 2}
 MaxLen = 4
