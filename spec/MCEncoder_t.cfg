SPECIFICATION Spec
CONSTANTS MaxBlocks = 3 MaxEdits = 3 Greedy = TRUE MinMatch = 2 SecMaxes = {5, 1000} Switches <- AllSwitches
INVARIANTS Prefix Reconstructs Sections HonoursSwitches Cheap Few Ends
