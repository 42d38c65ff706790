SPECIFICATION MSpec
CONSTANTS
    MaxLen = 8
    MaxBytes = 3
    Chars = {"b", "z", "-", "?"}
    Groupings = {1, 2, 3, 4, 5}
CHECK_DEADLOCK FALSE
INVARIANTS Agrees OneForm
