SPECIFICATION Spec
CONSTANTS
  Devices <- GlareDevices
  Places <- TiePlaces
  Acts = {"accept", "hangup", "timeout"}
  MaxActs = 0
INVARIANTS NoOrphan OneTalks Glare ToldWhy
CHECK_DEADLOCK FALSE
