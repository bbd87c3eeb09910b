SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANTS InOrder MakesUpTheFacet PartsAreRings PartsArePlanar OnlyWhenForced Tell
PROPERTY Ends
CHECK_DEADLOCK FALSE
