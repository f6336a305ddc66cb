SPECIFICATION TraceSpec
CONSTANT Judge <- MetJudge
CONSTANT StNone = 0
