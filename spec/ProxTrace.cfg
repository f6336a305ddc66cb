SPECIFICATION TraceSpec
CONSTANT Judge <- ProxJudge
CONSTANT StNone = 0
