INIT Init
NEXT Next
INVARIANTS Pure Untouched Typed
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Threads = {1, 2}
 Calls = {1, 2, 3}
 PerThread = 2
 Hint = FALSE
