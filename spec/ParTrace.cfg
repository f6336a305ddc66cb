SPECIFICATION TraceSpec
CONSTANT Judge <- Judge1
CONSTANT StNone = 0
