SPECIFICATION Spec
CONSTANTS DeltaOf <- M_Delta
 SourceOf <- M_Source
 DialectOf <- M_Dialect
 Src <- MCSrc
 MaxInst = 2
 MaxWin = 1
 Dialect = "lib"
INVARIANT Means
