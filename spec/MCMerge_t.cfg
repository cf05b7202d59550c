SPECIFICATION Spec
CONSTANTS SrcLen = 3 Sizes <- S32
INVARIANTS MeansChain NoOutputCopies FinishedMeans Associative
PROPERTIES StaysFinished
