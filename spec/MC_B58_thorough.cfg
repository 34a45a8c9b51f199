SPECIFICATION Spec
CONSTANTS Bytes = {0, 1, 57, 58, 255}
          Codes = {49, 50, 122, 48, 108}
          MaxLen = 6
INVARIANTS Inverts Emit
CHECK_DEADLOCK FALSE
