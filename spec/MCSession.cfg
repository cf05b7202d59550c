SPECIFICATION Spec
CONSTANTS MaxSteps = 3 AllChoices = FALSE
INVARIANTS Reconstructs
