SPECIFICATION Spec
CONSTANTS W = 8
          Vals = {0, 1, 2, 3, 5, 15, 16, 27, 77, 127, 128, 129, 144, 165, 170, 178, 200, 240, 254, 255}
          Counts = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255}
INVARIANTS Right Refused ShiftsFit
CHECK_DEADLOCK FALSE
