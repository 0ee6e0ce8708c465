SPECIFICATION Spec
INVARIANT TypeOK
VIEW View
CHECK_DEADLOCK FALSE
