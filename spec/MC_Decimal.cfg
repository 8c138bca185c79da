SPECIFICATION Spec
CONSTANTS Digits = 3
          Limit = 255
          Longest = 4
INVARIANTS Right NoWrap
PROPERTY Returns
CHECK_DEADLOCK FALSE
