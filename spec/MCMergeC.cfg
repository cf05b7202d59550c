SPECIFICATION Spec
CONSTANTS SrcLen = 2 Sizes <- S121
INVARIANTS MeansChain NoOutputCopies FinishedMeans Associative
PROPERTIES StaysFinished
