SPECIFICATION Spec
CONSTANT MaxSets = 2
INVARIANT LastWins
