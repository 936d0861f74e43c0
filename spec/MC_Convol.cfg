INIT Init
NEXT Next
VIEW View
INVARIANTS Bounded Picks Mirror
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 5
