SPECIFICATION Spec
CONSTANTS MaxCalls = 1 Discipline = "once"
INVARIANTS SuccessIsComplete FailureIsTold Honest
PROPERTIES Returns
