INIT Init
NEXT Next
VIEW View
INVARIANTS ValidIff ShapeFits Monotone Convex ClampInv NodeExact NearestUnique AroundBrackets
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Handles = {1, 2}
 Kinds = {"id"}
 Dims = {1, 2}
 MaxLen = 7
 ExportAt = 7
