SPECIFICATION Spec
CONSTANTS
  MaxLF = 3
  MaxGroups = 6
  MaxWorkers = 4
INVARIANTS Complete Right Bounded Exclusive
PROPERTY Ends
CHECK_DEADLOCK TRUE
