SPECIFICATION Spec
CONSTANTS
  Session = {1, 2}
  Steps = 4
  Mutant = FALSE
INVARIANTS Alone
PROPERTIES Shared
CHECK_DEADLOCK FALSE
