INIT Init
NEXT Next
VIEW View
INVARIANTS Interpolates Reproduces SameFunction DerivIsLimit
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Handles = {1}
 Dim = 1
 Kind = "p"
 MaxLen = 4
