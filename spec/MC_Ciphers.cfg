SPECIFICATION Spec
CONSTANTS Chars = {1, 47, 48, 64, 65, 66, 77, 78, 89, 90, 91, 96, 97, 98, 109, 110, 121, 122, 123, 127, 128, 193, 225, 255}
          Params = {0, 1, 2, 12, 13, 24, 25, 26, 27, 32, 51, 52, 53, 63, 64, 65, 66, 77, 89, 90, 91, 96, 97, 98, 109, 121, 122, 123, 127, 128, 129, 159, 165, 191, 192, 207, 208, 229, 230, 231, 233, 234, 254, 255}
INVARIANTS IsChar Meets
CHECK_DEADLOCK FALSE
