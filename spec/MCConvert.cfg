SPECIFICATION Spec
CONSTANTS Max = 12 Inst = 4 RunMax = 3 Periods = {1, 3, 4, 5} MaxInsts = 3 Small = 6
INVARIANTS Same Sections Complete Exists
