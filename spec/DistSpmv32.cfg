SPECIFICATION Spec
CONSTANTS P = 3  NRows = 2  Products = 2
INVARIANTS ValuesCurrent NothingLeft IdxFirst
