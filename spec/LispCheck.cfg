SPECIFICATION Spec
CONSTANT Strict = FALSE
CHECK_DEADLOCK FALSE
