SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Reads Answers Says Fits
PROPERTY Forward
CHECK_DEADLOCK FALSE
