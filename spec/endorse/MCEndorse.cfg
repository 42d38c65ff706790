SPECIFICATION MSpec
CONSTANTS
    Users = {"a", "b"}
    Exps = {2, 4}
    MaxSteps = 4
    Sim = FALSE
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS OnlyGiven OnlyValid NeverExpired Dropped OrderKept DomainsAgree
PROPERTIES AskingIsPure UpdateSeenOnce
