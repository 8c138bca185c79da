SPECIFICATION Spec
CONSTANTS Objects = {1, 2}
          Calls = 1
          Kind = "scratch"
          Threads = FALSE

PROPERTIES Refines 
CHECK_DEADLOCK FALSE
