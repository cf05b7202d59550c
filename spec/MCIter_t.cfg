SPECIFICATION Spec
CONSTANTS MaxSecs = 4
          MaxCalls = 6
INVARIANTS InOrder EndsThere Forever NotBeyond
