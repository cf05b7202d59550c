SPECIFICATION Spec
CONSTANTS MaxSteps = 3 AllChoices = TRUE
INVARIANTS Reconstructs
