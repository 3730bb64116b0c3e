SPECIFICATION Spec
CONSTANT
 MaxLines = 3
INVARIANTS OrdinaryUnchanged Concatenates ErrorMeansNoText FirstBadLine NotAgain LinesKept
CHECK_DEADLOCK FALSE
