SPECIFICATION Spec
CONSTANT MaxMuOf <- MmT
INVARIANTS NoDupInds IndexSet Chain Disjoint Space Counts
CHECK_DEADLOCK FALSE
