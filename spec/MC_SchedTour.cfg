SPECIFICATION Spec
CONSTANTS Sizes = {1, 2}
          Tasks = {0}
          MaxRuns = 2
INVARIANT InRange
PROPERTIES Refines CallsLive
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
