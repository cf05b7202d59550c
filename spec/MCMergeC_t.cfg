SPECIFICATION Spec
CONSTANTS SrcLen = 2 Sizes <- S222
INVARIANTS MeansChain NoOutputCopies FinishedMeans Associative
PROPERTIES StaysFinished
