SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeO
CONSTANT StNone = 0
