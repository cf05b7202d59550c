SPECIFICATION Spec
CONSTANTS DeltaOf <- M_Delta
 SourceOf <- M_Source
 DialectOf <- M_Dialect
 Src <- MCSrc
 MaxInst = 1
 MaxWin = 2
 Dialect = "lib"
INVARIANT Means
