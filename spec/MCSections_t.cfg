SPECIFICATION Spec
CONSTANTS MaxInst = 65535
          MaxSection = 16777215
          MaxOps = 6
          Kinds <- MCKinds
          Reqs <- MCReqs
INVARIANTS Partition Prefix
