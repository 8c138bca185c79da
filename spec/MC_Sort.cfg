SPECIFICATION Spec
CONSTANTS MaxN = 5
          Keys = {0, 1, 2}
          Modes = {0, 2, 5}
INVARIANTS OwnElements InArray Achieves Disciplined
PROPERTY Returns
CHECK_DEADLOCK FALSE
