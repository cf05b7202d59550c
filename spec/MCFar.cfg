SPECIFICATION Spec
CONSTANTS PatchOf <- MCPatch
          SrcOf <- MCSrc
          HasSrc <- MCHas
          InflateOf <- MCInflate
          SrcBaseOf <- MCSrcBase
          OutBaseOf <- MCOutBase
          Ops <- OpsFar
          Algos = {0}
          Pads = {0}
          HPads = {0}
          AnyForm = FALSE
          MaxOps = 2
          MaxSecs = 1
          SrcBases <- SrcFar
          OutBases <- OutFar
          Source <- FarSource
INVARIANT Shift
