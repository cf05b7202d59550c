SPECIFICATION Spec
CONSTANTS MaxCalls = 1 Discipline = "loop"
INVARIANTS SuccessIsComplete FailureIsTold Honest
PROPERTIES Returns
