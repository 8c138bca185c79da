SPECIFICATION Spec
CONSTANTS MaxMax = 3
          Keys = {1, 2, 3, 4}
          Vals = {1, 2}
INVARIANTS TypeOK NoTwins
PROPERTY Refines
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
