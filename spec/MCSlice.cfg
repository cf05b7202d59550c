SPECIFICATION Spec
CONSTANTS MaxOps = 3
          Kinds <- MCKinds
          Bases <- MCBases
INVARIANTS Good Byte None
