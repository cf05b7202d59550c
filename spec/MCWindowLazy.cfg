SPECIFICATION Spec
CONSTANTS Half = 4 Length = 24 MaxEdits = 3 Eager = FALSE
INVARIANTS Bounded Recovers
