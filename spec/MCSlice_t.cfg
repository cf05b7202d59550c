SPECIFICATION Spec
CONSTANTS MaxOps = 4
          Kinds <- MCKinds
          Bases <- MCBases
INVARIANTS Good Byte None
