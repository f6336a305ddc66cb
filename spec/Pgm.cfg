SPECIFICATION Spec
CONSTANTS MaxIters = 2
          MaxSolves = 2
          MaxBt = 2
INVARIANTS IterationNumbers CountIsTotal StatsComplete MonotoneObjective StepOnlyGrows TriesBounded
CHECK_DEADLOCK FALSE
