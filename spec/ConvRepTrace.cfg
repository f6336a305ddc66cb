SPECIFICATION TraceSpec
CONSTANT Judge <- ConvRepJudge
CONSTANT StNone = 0
