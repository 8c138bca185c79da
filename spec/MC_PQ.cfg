SPECIFICATION Spec
CONSTANTS MaxCap = 3
          Ranks = {1, 2, 3}
          Tags = {1, 2}
INVARIANT TypeOK
PROPERTIES Refines Meets
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
