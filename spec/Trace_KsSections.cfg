SPECIFICATION Spec
INVARIANTS NeverBoth
