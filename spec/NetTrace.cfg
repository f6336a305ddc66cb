SPECIFICATION TraceSpec
CONSTANT Judge <- NetJudge
CONSTANT StNone = 0
