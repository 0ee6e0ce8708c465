SPECIFICATION Spec
INVARIANT CursorInv
CHECK_DEADLOCK FALSE
