SPECIFICATION Spec
CONSTANTS
  Devices <- MultiDevices
  Places <- CrossBack
  Acts = {"accept", "hangup", "timeout"}
  MaxActs = 0
INVARIANTS NoOrphan OneTalks Glare ToldWhy
CHECK_DEADLOCK FALSE
