SPECIFICATION Spec
CONSTANT
 MaxLen = 3
INVARIANTS CompleteOrError NothingLost ReadFailureKeepsDest ErrorOnlyWithCause
PROPERTY Ends
