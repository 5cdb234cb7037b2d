SPECIFICATION Spec
CONSTANT Size = "big"
INVARIANTS Laws LawsOfThree
CHECK_DEADLOCK FALSE
