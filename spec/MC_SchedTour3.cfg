SPECIFICATION Spec
CONSTANTS Sizes = {3}
          Tasks = {0}
          MaxRuns = 1
INVARIANT InRange
PROPERTIES Refines CallsLive
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
