SPECIFICATION MSpec
CONSTANTS
    MaxEntries = 3
    MaxSteps = 3
    Groups = {"g", "h"}
    Versions <- SmallVersions
    Wants <- SmallWants
    Offers <- SmallOffers
    Sim = FALSE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OnlyVerified OncePerVersion InOrder
PROPERTIES RefusedNoEffect OneGroupOnly Grows
