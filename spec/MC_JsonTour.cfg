SPECIFICATION Spec
CONSTANT Sizes = {1, 2, 3, 8, 9, 14}
INVARIANTS InBounds Ends ReadsBack
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
