SPECIFICATION Spec
CONSTANTS MaxMax = 5
          Keys = {1, 2, 3, 4, 5, 6}
          Vals = {1, 2, 3}
INVARIANTS TypeOK NoTwins
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
