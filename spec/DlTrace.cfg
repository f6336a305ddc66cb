SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeD
CONSTANT StNone = 0
