SPECIFICATION Spec
CONSTANTS MaxNow = 4
          MaxOps = 4
INVARIANTS TotalIsRunningTime CurrentLeTotal UnknownNeverRuns
CHECK_DEADLOCK FALSE
