SPECIFICATION Spec
CONSTANTS
  MinPass = 8
  MaxKeys = 512
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
