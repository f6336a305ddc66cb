SPECIFICATION TraceSpec
CONSTANT Judge <- GridJudge
CONSTANT StNone = 0
