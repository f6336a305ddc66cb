SPECIFICATION TraceSpec
CONSTANT Judge <- ArrJudge
CONSTANT StNone = 0
