SPECIFICATION TraceSpec
CONSTANT Judge <- FigJudge
CONSTANT StNone = 0
