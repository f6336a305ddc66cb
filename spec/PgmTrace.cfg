SPECIFICATION TraceSpec
CONSTANT Judge <- PgmJudge
CONSTANT StNone = 0
