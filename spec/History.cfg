SPECIFICATION Spec
INVARIANTS
  Converges
  FailsClean
  CrashContained
  NeverWritesWhileChecking
  Forgets
  Recovers
  Emit
PROPERTIES
  Frame
  AppendOnly
  Terminates
CHECK_DEADLOCK FALSE
