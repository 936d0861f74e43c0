INIT Init
NEXT Next
VIEW View
INVARIANTS SortLaws Algebra
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = {1, 2}
 MaxLen = 4
 N = 3
