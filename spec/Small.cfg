SPECIFICATION Spec
INVARIANTS
  Sound
  Emit
CHECK_DEADLOCK FALSE
