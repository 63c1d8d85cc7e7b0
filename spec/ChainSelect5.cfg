CONSTANTS N = 5
MaxRank = 2
Distinct = FALSE
SPECIFICATION Spec
INVARIANTS NoRepeat IsAPermutation MutualPairsAreLinks SomeClosestIsLink
