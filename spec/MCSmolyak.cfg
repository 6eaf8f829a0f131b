SPECIFICATION Spec
CONSTANT MaxMuOf <- Mm
INVARIANTS NoDupInds IndexSet Chain Disjoint Space Counts
CHECK_DEADLOCK FALSE
