SPECIFICATION OSpec
CONSTANTS
  Focus = "layers"
  DamageKinds = {"none"}
  MaxLayers = 4
  Dense = FALSE
INVARIANTS InBounds Agree OEmit
CHECK_DEADLOCK FALSE
ALIAS OBrief
