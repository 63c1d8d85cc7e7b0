CONSTANTS N = 4
MaxRank = 6
Distinct = TRUE
SPECIFICATION Spec
INVARIANTS NoRepeat IsAPermutation MutualPairsAreLinks SomeClosestIsLink
PROPERTY Finishes
