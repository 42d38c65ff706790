SPECIFICATION Spec
CONSTANTS
  Devices <- MultiDevices
  Places <- MultiPlaces
  Acts = {"accept", "hangup", "timeout"}
  MaxActs = 1
INVARIANTS NoOrphan OneTalks Glare ToldWhy
CHECK_DEADLOCK FALSE
