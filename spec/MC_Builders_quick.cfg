SPECIFICATION BSpec
CONSTANTS MAXID = 4
 DEPTH = 2
INVARIANTS OneOwner NoneLost ResultOwnsAll
PROPERTY Monotone
CHECK_DEADLOCK FALSE
