INIT Init
NEXT Next

INVARIANTS ValidIff ShapeFits Monotone Convex ClampInv NodeExact NearestUnique AroundBrackets
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Handles = {1, 2, 3}
 Kinds = {"nd"}
 Dims = {1, 2, 3}
 MaxLen = 18
 ExportAt = 18
