SPECIFICATION Spec
CONSTANTS
  Depth = 3
  MaxNodes = 12
  EmitMod = 47
INVARIANTS CacheCurrent
    CacheKept RoundTrip Emit
PROPERTIES Apart Frame
CHECK_DEADLOCK FALSE
