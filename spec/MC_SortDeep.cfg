SPECIFICATION Spec
CONSTANTS MaxN = 7
          Keys = {0, 1, 2}
          Modes = {0}
INVARIANTS OwnElements InArray Achieves Disciplined
PROPERTY Returns
CHECK_DEADLOCK FALSE
