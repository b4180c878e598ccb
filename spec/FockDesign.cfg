SPECIFICATION Spec
CONSTANTS Norb = 2  K = 1
INVARIANTS RulesAreOperator Hermitian RankRule Anticommute Increment RdmEnergy
CHECK_DEADLOCK FALSE
