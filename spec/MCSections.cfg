SPECIFICATION Spec
CONSTANTS MaxInst = 65535
          MaxSection = 16777215
          MaxOps = 4
          Kinds <- MCKinds
          Reqs <- MCReqs
INVARIANTS Partition Prefix
