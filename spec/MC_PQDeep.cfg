SPECIFICATION Spec
CONSTANTS MaxCap = 6
          Ranks = {1, 2, 3}
          Tags = {1, 2}
INVARIANT TypeOK
PROPERTIES Refines Meets
VIEW View
CHECK_DEADLOCK FALSE
