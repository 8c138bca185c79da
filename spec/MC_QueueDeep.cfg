SPECIFICATION Spec
CONSTANTS MaxCap = 10
          Tokens = {1, 2}
INVARIANTS IndexOK TypeOK
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
