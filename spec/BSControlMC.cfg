CONSTANTS Kdk = FALSE
 Errs = {1024, 1280000, 1999999999}
 Rs = {2, 8, 40}
SPECIFICATION MSpec
INVARIANTS RankInTable LevelInTable AcceptedWithin PositiveRatio
PROPERTIES RankMoves FirstOnlyOnce RejectedKeepsFirst
CHECK_DEADLOCK FALSE
