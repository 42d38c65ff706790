SPECIFICATION Spec
CONSTANTS
  Devices <- GlareDevices
  Places <- GlarePlaces
  Acts = {"accept", "hangup", "timeout"}
  MaxActs = 2
INVARIANTS NoOrphan OneTalks Glare ToldWhy
CHECK_DEADLOCK FALSE
