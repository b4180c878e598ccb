SPECIFICATION Spec
CONSTANTS Norb = 4  K = 2
INVARIANTS RulesAreOperator Hermitian RankRule Anticommute Increment
CHECK_DEADLOCK FALSE
