SPECIFICATION TraceSpec
CONSTANT Judge <- IsoJudge
CONSTANT StNone = 0
