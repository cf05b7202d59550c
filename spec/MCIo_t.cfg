SPECIFICATION Spec
CONSTANTS MaxCalls = 3 Discipline = "loop"
INVARIANTS SuccessIsComplete FailureIsTold Honest
PROPERTIES Returns
