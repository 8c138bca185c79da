SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Reads Answers Says Fits
PROPERTY Forward
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
