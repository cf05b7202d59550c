SPECIFICATION Spec
CONSTANTS MaxBlocks = 3 MaxEdits = 1 Greedy = FALSE MinMatch = 2 SecMaxes = {3, 1000} Switches <- AllSwitches
INVARIANTS Prefix Reconstructs Sections HonoursSwitches Cheap Few Ends
