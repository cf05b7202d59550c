SPECIFICATION Spec
CONSTANT MaxSets = 3
INVARIANT LastWins
