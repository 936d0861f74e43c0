INIT Init
NEXT Next
INVARIANTS Trig ExpLn Inverse
CHECK_DEADLOCK FALSE
