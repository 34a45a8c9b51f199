SPECIFICATION Spec
CONSTANTS Users = {1, 2, 3}
          Writers = {1, 2}
          Calls = 4
INVARIANTS AsAlone Emit
CHECK_DEADLOCK FALSE
