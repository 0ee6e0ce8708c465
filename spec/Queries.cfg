SPECIFICATION Spec
INVARIANT Safe
VIEW View
CHECK_DEADLOCK FALSE
