SPECIFICATION Spec
CONSTANT W = 6
INVARIANTS LessIsNumeric Trichotomy HalvesDetermine StringDetermines Words
CHECK_DEADLOCK FALSE
