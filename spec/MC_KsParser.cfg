SPECIFICATION Spec
CONSTANTS MainMax = 3
 IncMax = 2
 FlagSets = "some"
INVARIANTS LnIsPosition ErrorHasLine LogHasLine NothingOpen OpenIffCtx Strict StrictPrefix LenientSkip IncludeTextual
