INIT Init
NEXT Next
INVARIANTS Ranged Congr Idem Agree Range1
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = {1}
 Span = 300
 Step = 15
 MaxLen = 3
