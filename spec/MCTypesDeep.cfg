SPECIFICATION Spec
CONSTANT Size = "deep"
INVARIANTS Laws LawsOfThree
CHECK_DEADLOCK FALSE
