SPECIFICATION Spec
CONSTANTS
  Focus = "layers"
  DamageKinds = {"none"}
  MaxLayers = 4
INVARIANTS InBounds RTStatus RTConfig RTExtent RTLayers RTInfos RTMerged DamageRejected Emit
CHECK_DEADLOCK FALSE
ALIAS Brief
