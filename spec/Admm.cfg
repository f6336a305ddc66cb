SPECIFICATION Spec
CONSTANTS MaxIters = 2
          MaxSolves = 3
INVARIANTS IterationNumbers CountIsTotal StatsComplete DualConsistent AdaptOnlyWhenEnabled AdaptOnlyAtPeriod
CHECK_DEADLOCK FALSE
