SPECIFICATION Spec
CONSTANTS PatchOf <- MCPatch
          SrcOf <- MCSrc
          HasSrc <- MCHas
          InflateOf <- MCInflate
          SrcBaseOf <- MCBase
          OutBaseOf <- MCBase
          Ops <- OpsForms
          Algos = {0}
          Pads = {0, 3, 10}
          HPads = {0, 2}
          AnyForm = TRUE
          MaxOps = 2
          MaxSecs = 2
          Faults = {"none"}
          Values <- ValuesFew
          Source <- MCSource
INVARIANTS RoundTrip EndsThere Denotes PrefixFree Consistent ShortForm Progress
