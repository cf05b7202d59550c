SPECIFICATION Spec
CONSTANTS PatchOf <- MCPatch
          SrcOf <- MCSrc
          HasSrc <- MCHas
          InflateOf <- MCInflate
          SrcBaseOf <- MCBase
          OutBaseOf <- MCBase
          Ops <- OpsFault
          Algos = {0, 1}
          Pads = {0}
          HPads = {0}
          AnyForm = FALSE
          MaxOps = 2
          MaxSecs = 2
          Faults = {"cut", "set"}
          Values <- ValuesMany
          Source <- MCSource
INVARIANTS RoundTrip EndsThere Denotes PrefixFree Consistent ShortForm Progress
