SPECIFICATION TraceSpec
CONSTANT Judge <- FourJudge
CONSTANT StNone = 0
