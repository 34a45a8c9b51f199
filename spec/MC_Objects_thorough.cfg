SPECIFICATION Spec
CONSTANTS
  Depth = 4
  MaxNodes = 12
  EmitMod = 97
INVARIANTS CacheCurrent
    CacheKept RoundTrip Emit
PROPERTIES Apart Frame
CHECK_DEADLOCK FALSE
