SPECIFICATION MSpec
CONSTANTS
    MaxEntries = 5
    MaxSteps = 12
    Groups = {"g", "h"}
    Versions <- GenVersions
    Wants <- GenWants
    Offers <- GenOffers
    Sim = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
