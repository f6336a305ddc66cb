SPECIFICATION TraceSpec
CONSTANT Judge <- ImgJudge
CONSTANT StNone = 0
