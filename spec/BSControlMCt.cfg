CONSTANTS Kdk = TRUE
 Errs = {1024, 1025, 12800000, 1999999999}
 Rs = {2, 8, 12, 40}
SPECIFICATION MSpec
INVARIANTS RankInTable LevelInTable AcceptedWithin PositiveRatio
PROPERTIES RankMoves FirstOnlyOnce RejectedKeepsFirst
CHECK_DEADLOCK FALSE
