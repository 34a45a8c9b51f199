SPECIFICATION Spec
CONSTANTS N = 5
          Keys <- MKeys
          Buckets <- MBuckets
          Slots <- MSlots
INVARIANTS Finds NoSharing Occupied InRange Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
