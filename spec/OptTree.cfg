SPECIFICATION Spec
CONSTANTS MaxOps = 4
          Vals = {1, 2}
INVARIANTS LastWriteWins ShapeFixed
PROPERTY Isolation
CHECK_DEADLOCK FALSE
