SPECIFICATION Spec
CONSTANTS Objects = {1, 2, 3}
          Calls = 2
          Kind = "own"
          Threads = FALSE
INVARIANT Own
PROPERTIES Refines Completes
CHECK_DEADLOCK FALSE
