SPECIFICATION Spec
CONSTANTS Norb = 3  K = 2
INVARIANTS RulesAreOperator Hermitian RankRule Anticommute Increment RdmEnergy
CHECK_DEADLOCK FALSE
