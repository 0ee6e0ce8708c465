SPECIFICATION Spec
INVARIANT DecoderInv
INVARIANT StateInv
CHECK_DEADLOCK FALSE
VIEW View
