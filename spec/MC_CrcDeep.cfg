SPECIFICATION Spec
CONSTANTS Names = {}
          Bytes = {0, 1, 128, 255, 90}
          MaxLen = 5
INVARIANTS Agree Cut Copies RegisterFits
CHECK_DEADLOCK FALSE
