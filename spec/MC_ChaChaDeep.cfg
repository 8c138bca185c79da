SPECIFICATION Spec
CONSTANTS BlockLen = 4
          Wrap = 4
          MaxLen = 20
INVARIANTS SoFar InputKept InRange
CHECK_DEADLOCK FALSE
