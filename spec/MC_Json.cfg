SPECIFICATION Spec
CONSTANT Sizes = {1, 2, 10, 15, 16, 17}
INVARIANTS InBounds Ends ReadsBack
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
