SPECIFICATION Spec
CONSTANTS BlockLen = 3
          Wrap = 4
          MaxLen = 11
INVARIANTS SoFar InputKept InRange
CHECK_DEADLOCK FALSE
