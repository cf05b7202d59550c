SPECIFICATION Spec
CONSTANTS DeltaOf <- T_Delta
 SourceOf <- T_Source
 DialectOf <- T_Dialect
