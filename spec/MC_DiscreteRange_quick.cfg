CONSTANT N = 6
SPECIFICATION Spec
INVARIANTS IsectIsSet HullIsLeast UnionRule AdjDisjoint LexTotal RelSym
CHECK_DEADLOCK FALSE
