SPECIFICATION Spec
INVARIANTS LnIsPosition NothingOpen
