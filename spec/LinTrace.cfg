SPECIFICATION TraceSpec
CONSTANT Judge <- LinJudge
CONSTANT StNone = 0
