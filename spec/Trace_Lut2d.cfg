INIT TraceInit
NEXT TraceNext
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Handles = {1, 2, 3}
