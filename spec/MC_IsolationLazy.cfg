SPECIFICATION Spec
CONSTANTS Objects = {1, 2}
          Calls = 1
          Kind = "lazy"
          Threads = FALSE

PROPERTIES Refines 
CHECK_DEADLOCK FALSE
