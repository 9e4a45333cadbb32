SPECIFICATION BSpec
CONSTANTS MAXID = 4
 DEPTH = 3
INVARIANTS OneOwner NoneLost ResultOwnsAll
PROPERTY Monotone
CHECK_DEADLOCK FALSE
