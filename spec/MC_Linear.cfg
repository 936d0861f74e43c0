INIT Init
NEXT Next
VIEW View
INVARIANTS TrTwice RankDet InvLaws SolveLaw PDLaw SymLaw PowerSum ConsistentLaw
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = {1, 2}
 MaxLen = 4
 Ent <- EntSmall
