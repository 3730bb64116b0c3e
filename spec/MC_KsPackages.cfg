SPECIFICATION Spec
CONSTANT
  MaxLen = 4
INVARIANTS Agrees NeverBoth OneLevel ReadsBack
CHECK_DEADLOCK FALSE
