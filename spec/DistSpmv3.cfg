SPECIFICATION Spec
CONSTANTS P = 3  NRows = 3  Products = 2
INVARIANTS ValuesCurrent NothingLeft IdxFirst
