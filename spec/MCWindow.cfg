SPECIFICATION Spec
CONSTANTS Half = 4 Length = 24 MaxEdits = 3 Eager = TRUE
INVARIANTS Bounded Recovers
