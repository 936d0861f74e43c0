INIT Init
NEXT Next
INVARIANTS Wronski Recurrence Derivative ExpInt StruveI GammaI Poly Runs
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = {1}
 Nums = {1, 3, 8, 13, 24, 25, 32, 48, 49, 77, 96, 97, 192, 193, 320, 400, 801}
 Den8 = 8
 MaxO = 13
 MaxN = 24
