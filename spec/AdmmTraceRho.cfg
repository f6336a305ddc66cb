SPECIFICATION TraceSpec
CONSTANT Judge <- AdmmJudge
CONSTANT StNone = 0
CONSTANT Scope = "rho"
