CONSTANTS N = 5
MaxRank = 3
Distinct = FALSE
SPECIFICATION Spec
INVARIANTS NoRepeat IsAPermutation MutualPairsAreLinks SomeClosestIsLink
