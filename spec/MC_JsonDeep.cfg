SPECIFICATION Spec
CONSTANT Sizes = {1, 2, 3, 8, 9, 10, 14, 15, 16, 17, 23}
INVARIANTS InBounds Ends ReadsBack
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
