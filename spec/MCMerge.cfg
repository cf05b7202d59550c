SPECIFICATION Spec
CONSTANTS SrcLen = 2 Sizes <- S22
INVARIANTS MeansChain NoOutputCopies FinishedMeans Associative
PROPERTIES StaysFinished
