SPECIFICATION Spec
CONSTANTS MaxCap = 4
          Tokens = {1, 2}
INVARIANTS IndexOK TypeOK
PROPERTY Refines
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
