SPECIFICATION Spec
CONSTANTS PatchOf <- MCPatch
          SrcOf <- MCSrc
          HasSrc <- MCHas
          InflateOf <- MCInflate
          SrcBaseOf <- MCSrcBase
          OutBaseOf <- MCOutBase
          Ops <- OpsFew
          Algos = {0}
          Pads = {0}
          HPads = {0}
          AnyForm = FALSE
          MaxOps = 3
          MaxSecs = 2
          SrcBases <- SrcFar
          OutBases <- OutFar
          Source <- FarSource
INVARIANT Shift
