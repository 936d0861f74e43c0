INIT Init
NEXT Next
INVARIANTS Wronski Recurrence Derivative ExpInt StruveI GammaI Poly Runs
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = {1}
 Nums = {3, 8, 13, 25, 48, 97, 193, 400}
 Den8 = 8
 MaxO = 7
 MaxN = 12
