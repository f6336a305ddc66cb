SPECIFICATION TraceSpec
CONSTANT Judge <- TimerJudge
CONSTANT StNone = 0
