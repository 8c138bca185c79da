SPECIFICATION Spec
CONSTANTS Objects = {1, 2, 3}
          Calls = 2
          Kind = "lazyend"
          Threads = FALSE
INVARIANT Own
PROPERTIES Refines 
CHECK_DEADLOCK FALSE
