SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3}
          Xs = {1, 2, 3, 4}
          Digests = {1, 2}
          CalcSign <- MCalc
INVARIANT Exactly
CHECK_DEADLOCK FALSE
