SPECIFICATION MSpec
CONSTANTS
    Users = {"a", "b", "c"}
    Exps = {2, 4, 6}
    MaxSteps = 14
    Sim = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
