SPECIFICATION Spec
CONSTANTS MaxSteps = 4 AllChoices = FALSE
INVARIANTS Reconstructs
