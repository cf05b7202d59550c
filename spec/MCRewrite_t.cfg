SPECIFICATION Spec
CONSTANTS Groups <- MCGroups MaxGroups = 4 MaxRewrites = 2 SrcLen = 3
INVARIANTS SameMeaning SameSize NothingEmpty
