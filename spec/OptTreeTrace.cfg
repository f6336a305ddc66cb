SPECIFICATION TraceSpec
CONSTANT Judge <- OptJudge
CONSTANT StNone = 0
