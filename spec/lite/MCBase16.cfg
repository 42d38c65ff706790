SPECIFICATION MSpec
CONSTANTS
    MaxLen = 6
    MaxBytes = 3
    Chars = {"b", "z", "-", "?"}
    Groupings = {1, 2, 3, 4, 5}
CHECK_DEADLOCK FALSE
INVARIANTS Agrees OneForm
