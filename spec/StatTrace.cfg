SPECIFICATION TraceSpec
CONSTANT Judge <- StatJudge
CONSTANT StNone = 0
