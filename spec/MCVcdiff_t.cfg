SPECIFICATION Spec
CONSTANTS DeltaOf <- M_Delta
 SourceOf <- M_Source
 DialectOf <- M_Dialect
 Src <- MCSrc
 MaxInst = 3
 MaxWin = 1
 Dialect = "lib"
INVARIANT Means
