INIT Init
NEXT Next
VIEW View
INVARIANTS FitInv Within Clamped SameOnEdges AffineExact NoJump
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Handles = {1, 2}
 Bufs = {1}
 Kinds = {"S", "M"}
 Conts = {TRUE, FALSE}
 MaxLen = 5
 ExportAt = 5
