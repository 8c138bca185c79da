SPECIFICATION Spec
CONSTANTS Objects = {1, 2, 3, 4}
          Calls = 2
          Kind = "own"
          Threads = TRUE
INVARIANT Own
PROPERTIES Refines 
CHECK_DEADLOCK FALSE
