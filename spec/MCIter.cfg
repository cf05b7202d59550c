SPECIFICATION Spec
CONSTANTS MaxSecs = 3
          MaxCalls = 5
INVARIANTS InOrder EndsThere Forever NotBeyond
