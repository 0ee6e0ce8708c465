SPECIFICATION Spec
CONSTANTS
  MaxLF = 3
  MaxGroups = 4
  MaxWorkers = 3
INVARIANTS Complete Right Bounded Exclusive
PROPERTY Ends
CHECK_DEADLOCK TRUE
