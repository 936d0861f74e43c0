INIT TraceInit
NEXT TraceNext
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Regs = {1, 2, 3}
