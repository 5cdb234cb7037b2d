SPECIFICATION Spec
CONSTANT Size = "three"
INVARIANTS Laws LawsOfThree
CHECK_DEADLOCK FALSE
