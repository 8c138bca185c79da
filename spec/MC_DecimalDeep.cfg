SPECIFICATION Spec
CONSTANTS Digits = 5
          Limit = 65535
          Longest = 5
INVARIANTS Right NoWrap
PROPERTY Returns
CHECK_DEADLOCK FALSE
