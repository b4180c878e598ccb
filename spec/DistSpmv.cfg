SPECIFICATION Spec
CONSTANTS P = 2  NRows = 2  Products = 2
INVARIANTS ValuesCurrent NothingLeft IdxFirst
PROPERTY Finishes
