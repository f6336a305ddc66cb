---- MODULE FigTrace_TTrace_1795049712 ----
EXTENDS Sequences, TLCExt, Toolbox, FigTrace, Naturals, TLC

_expression ==
    LET FigTrace_TEExpression == INSTANCE FigTrace_TEExpression
    IN FigTrace_TEExpression!expression
----

_trace ==
    LET FigTrace_TETrace == INSTANCE FigTrace_TETrace
    IN FigTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        tr_dead = (FALSE)
        /\
        tr_st = ([views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<33000, 27500>>])
        /\
        tr_l = (217)
        /\
        tr_ntr = (25)
    )
----

_init ==
    /\ tr_ntr = _TETrace[1].tr_ntr
    /\ tr_l = _TETrace[1].tr_l
    /\ tr_dead = _TETrace[1].tr_dead
    /\ tr_st = _TETrace[1].tr_st
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ tr_ntr  = _TETrace[i].tr_ntr
        /\ tr_ntr' = _TETrace[j].tr_ntr
        /\ tr_l  = _TETrace[i].tr_l
        /\ tr_l' = _TETrace[j].tr_l
        /\ tr_dead  = _TETrace[i].tr_dead
        /\ tr_dead' = _TETrace[j].tr_dead
        /\ tr_st  = _TETrace[i].tr_st
        /\ tr_st' = _TETrace[j].tr_st

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("FigTrace_TTrace_1795049712.json", _TETrace)

=============================================================================

 Note that you can extract this module `FigTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `FigTrace_TEExpression.tla` file takes precedence 
  over the module `FigTrace_TEExpression` below).

---- MODULE FigTrace_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, FigTrace, Naturals, TLC

expression == 
    [
        \* To hide variables of the `FigTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        tr_ntr |-> tr_ntr
        ,tr_l |-> tr_l
        ,tr_dead |-> tr_dead
        ,tr_st |-> tr_st
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_tr_ntrUnchanged |-> tr_ntr = tr_ntr'
        
        \* Format the `tr_ntr` variable as Json value.
        \* ,_tr_ntrJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(tr_ntr)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_tr_ntrModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].tr_ntr # _TETrace[s-1].tr_ntr
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE FigTrace_TETrace ----
\*EXTENDS IOUtils, FigTrace, TLC
\*
\*trace == IODeserialize("FigTrace_TTrace_1795049712.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE FigTrace_TETrace ----
EXTENDS FigTrace, TLC

trace == 
    <<
    ([tr_dead |-> FALSE,tr_st |-> 0,tr_l |-> 1,tr_ntr |-> 0]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 2,tr_ntr |-> 1]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 3,tr_ntr |-> 1]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 4,tr_ntr |-> 1]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 5,tr_ntr |-> 1]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<33000, 27500>>],tr_l |-> 6,tr_ntr |-> 1]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<33000, 27500>>],tr_l |-> 7,tr_ntr |-> 1]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<33000, 27500>>],tr_l |-> 8,tr_ntr |-> 1]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<33000, 27500>>],tr_l |-> 9,tr_ntr |-> 1]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 10,tr_ntr |-> 2]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 11,tr_ntr |-> 2]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<25000, 20000>>],tr_l |-> 12,tr_ntr |-> 2]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<25000, 20000>>],tr_l |-> 13,tr_ntr |-> 2]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<25000, 20000>>],tr_l |-> 14,tr_ntr |-> 2]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<25000, 20000>>],tr_l |-> 15,tr_ntr |-> 2]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 16,tr_ntr |-> 3]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 17,tr_ntr |-> 3]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 18,tr_ntr |-> 3]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 19,tr_ntr |-> 3]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 20,tr_ntr |-> 3]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 21,tr_ntr |-> 3]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 22,tr_ntr |-> 3]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 23,tr_ntr |-> 3]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 24,tr_ntr |-> 3]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 25,tr_ntr |-> 4]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 26,tr_ntr |-> 4]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 27,tr_ntr |-> 5]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 28,tr_ntr |-> 5]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 29,tr_ntr |-> 5]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 30,tr_ntr |-> 5]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<306874, 806874>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 31,tr_ntr |-> 5]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 32,tr_ntr |-> 5]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<204349, 704349>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 33,tr_ntr |-> 5]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<204349, 704349>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 34,tr_ntr |-> 5]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<204349, 704349>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 35,tr_ntr |-> 5]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 36,tr_ntr |-> 6]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 37,tr_ntr |-> 6]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 38,tr_ntr |-> 6]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 39,tr_ntr |-> 6]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 40,tr_ntr |-> 6]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 41,tr_ntr |-> 6]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 42,tr_ntr |-> 6]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 43,tr_ntr |-> 6]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<92918, 592918>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 44,tr_ntr |-> 6]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<92918, 592918>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 45,tr_ntr |-> 6]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 46,tr_ntr |-> 7]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 47,tr_ntr |-> 7]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 48,tr_ntr |-> 7]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 49,tr_ntr |-> 7]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 50,tr_ntr |-> 7]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 51,tr_ntr |-> 7]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 52,tr_ntr |-> 7]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 53,tr_ntr |-> 8]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 54,tr_ntr |-> 8]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 55,tr_ntr |-> 8]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 56,tr_ntr |-> 8]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 57,tr_ntr |-> 8]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 58,tr_ntr |-> 8]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 59,tr_ntr |-> 8]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 60,tr_ntr |-> 8]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<44000, 27500>>],tr_l |-> 61,tr_ntr |-> 8]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<44000, 27500>>],tr_l |-> 62,tr_ntr |-> 8]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 63,tr_ntr |-> 9]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 64,tr_ntr |-> 9]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 65,tr_ntr |-> 9]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 66,tr_ntr |-> 9]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 67,tr_ntr |-> 9]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<44000, 27500>>],tr_l |-> 68,tr_ntr |-> 9]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<44000, 27500>>],tr_l |-> 69,tr_ntr |-> 9]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<44000, 27500>>],tr_l |-> 70,tr_ntr |-> 9]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<44000, 27500>>],tr_l |-> 71,tr_ntr |-> 9]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 72,tr_ntr |-> 10]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 73,tr_ntr |-> 10]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 74,tr_ntr |-> 10]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 75,tr_ntr |-> 10]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 76,tr_ntr |-> 10]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 77,tr_ntr |-> 10]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 78,tr_ntr |-> 10]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 79,tr_ntr |-> 10]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 80,tr_ntr |-> 10]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, -2000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 81,tr_ntr |-> 10]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, -2000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 82,tr_ntr |-> 10]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, -2000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 83,tr_ntr |-> 10]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, -2000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 84,tr_ntr |-> 10]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, -2000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 85,tr_ntr |-> 10]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, -2000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 86,tr_ntr |-> 10]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, -2000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 87,tr_ntr |-> 10]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, -2000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 88,tr_ntr |-> 10]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 89,tr_ntr |-> 11]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 90,tr_ntr |-> 11]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 91,tr_ntr |-> 11]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 92,tr_ntr |-> 11]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 93,tr_ntr |-> 11]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 94,tr_ntr |-> 11]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 95,tr_ntr |-> 11]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 96,tr_ntr |-> 11]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 97,tr_ntr |-> 11]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<37500, -37500>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 98,tr_ntr |-> 11]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<37500, -37500>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 99,tr_ntr |-> 11]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<37500, -37500>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 100,tr_ntr |-> 11]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<37500, -37500>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 101,tr_ntr |-> 11]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<37500, -37500>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 102,tr_ntr |-> 11]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 103,tr_ntr |-> 12]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 104,tr_ntr |-> 12]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 105,tr_ntr |-> 12]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 106,tr_ntr |-> 12]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 107,tr_ntr |-> 12]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 108,tr_ntr |-> 12]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 109,tr_ntr |-> 12]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 110,tr_ntr |-> 12]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 111,tr_ntr |-> 12]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 112,tr_ntr |-> 12]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 113,tr_ntr |-> 12]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 114,tr_ntr |-> 13]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 115,tr_ntr |-> 13]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<25000, 20000>>],tr_l |-> 116,tr_ntr |-> 13]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<25000, 20000>>],tr_l |-> 117,tr_ntr |-> 13]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<25000, 20000>>],tr_l |-> 118,tr_ntr |-> 13]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<25000, 20000>>],tr_l |-> 119,tr_ntr |-> 13]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<25000, 20000>>],tr_l |-> 120,tr_ntr |-> 13]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 121,tr_ntr |-> 14]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 122,tr_ntr |-> 14]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 123,tr_ntr |-> 14]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 124,tr_ntr |-> 14]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 125,tr_ntr |-> 14]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 126,tr_ntr |-> 14]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 127,tr_ntr |-> 14]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 128,tr_ntr |-> 14]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 129,tr_ntr |-> 14]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 130,tr_ntr |-> 14]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 131,tr_ntr |-> 14]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 132,tr_ntr |-> 15]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 133,tr_ntr |-> 15]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 134,tr_ntr |-> 15]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 135,tr_ntr |-> 15]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 136,tr_ntr |-> 15]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 137,tr_ntr |-> 15]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 138,tr_ntr |-> 15]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 139,tr_ntr |-> 15]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 140,tr_ntr |-> 16]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 141,tr_ntr |-> 16]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 142,tr_ntr |-> 16]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 143,tr_ntr |-> 16]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 144,tr_ntr |-> 17]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 145,tr_ntr |-> 17]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 146,tr_ntr |-> 17]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 147,tr_ntr |-> 17]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<485000, 985000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 148,tr_ntr |-> 17]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<485000, 985000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 149,tr_ntr |-> 17]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<485000, 985000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 150,tr_ntr |-> 17]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<485000, 985000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 151,tr_ntr |-> 17]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<485000, 985000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 152,tr_ntr |-> 17]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<485000, 985000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 153,tr_ntr |-> 17]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<485000, 985000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 154,tr_ntr |-> 17]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<485000, 985000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 155,tr_ntr |-> 17]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 156,tr_ntr |-> 18]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 157,tr_ntr |-> 18]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 158,tr_ntr |-> 18]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 159,tr_ntr |-> 18]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<27273, 22727>>],tr_l |-> 160,tr_ntr |-> 18]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<27273, 22727>>],tr_l |-> 161,tr_ntr |-> 18]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<27273, 22727>>],tr_l |-> 162,tr_ntr |-> 18]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<27273, 22727>>],tr_l |-> 163,tr_ntr |-> 18]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 164,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 165,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<25000, 20000>>],tr_l |-> 166,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<25000, 20000>>],tr_l |-> 167,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<25000, 20000>>],tr_l |-> 168,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<25000, 20000>>],tr_l |-> 169,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<25000, 20000>>],tr_l |-> 170,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<25000, 20000>>],tr_l |-> 171,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<27500, 22000>>],tr_l |-> 172,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<27500, 22000>>],tr_l |-> 173,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<27500, 22000>>],tr_l |-> 174,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<27500, 22000>>],tr_l |-> 175,tr_ntr |-> 19]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 176,tr_ntr |-> 20]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 177,tr_ntr |-> 20]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 178,tr_ntr |-> 20]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 179,tr_ntr |-> 20]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 180,tr_ntr |-> 20]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 181,tr_ntr |-> 20]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 182,tr_ntr |-> 20]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 183,tr_ntr |-> 20]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 184,tr_ntr |-> 21]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 185,tr_ntr |-> 21]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 186,tr_ntr |-> 21]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 187,tr_ntr |-> 21]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 188,tr_ntr |-> 21]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 189,tr_ntr |-> 22]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 190,tr_ntr |-> 22]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 191,tr_ntr |-> 22]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 192,tr_ntr |-> 22]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<155000, 655000>>, <<60181, 267078>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 193,tr_ntr |-> 22]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<155000, 655000>>, <<60181, 267078>>>>, <<<<60000, 560000>>, <<405000, 738333>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 194,tr_ntr |-> 22]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<155000, 655000>>, <<60181, 267078>>>>, <<<<60000, 560000>>, <<405000, 738333>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 195,tr_ntr |-> 22]),
    ([tr_dead |-> TRUE,tr_st |-> [views |-> <<<<<<155000, 655000>>, <<60181, 267078>>>>, <<<<60000, 560000>>, <<405000, 738333>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 196,tr_ntr |-> 22]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 197,tr_ntr |-> 23]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 198,tr_ntr |-> 23]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 199,tr_ntr |-> 23]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 200,tr_ntr |-> 23]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<30000, 25000>>],tr_l |-> 201,tr_ntr |-> 23]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 202,tr_ntr |-> 24]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 203,tr_ntr |-> 24]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 204,tr_ntr |-> 24]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 205,tr_ntr |-> 24]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<40000, 25000>>],tr_l |-> 206,tr_ntr |-> 24]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<36364, 22727>>],tr_l |-> 207,tr_ntr |-> 24]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<36364, 22727>>],tr_l |-> 208,tr_ntr |-> 24]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<36364, 22727>>],tr_l |-> 209,tr_ntr |-> 24]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 210,tr_ntr |-> 25]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<>>, size |-> <<>>],tr_l |-> 211,tr_ntr |-> 25]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<30000, 25000>>],tr_l |-> 212,tr_ntr |-> 25]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<33000, 27500>>],tr_l |-> 213,tr_ntr |-> 25]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<33000, 27500>>],tr_l |-> 214,tr_ntr |-> 25]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<33000, 27500>>],tr_l |-> 215,tr_ntr |-> 25]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<33000, 27500>>],tr_l |-> 216,tr_ntr |-> 25]),
    ([tr_dead |-> FALSE,tr_st |-> [views |-> <<<<<<0, 1000000>>, <<0, 1000000>>>>, <<<<0, 1000000>>, <<0, 1000000>>>>>>, size |-> <<33000, 27500>>],tr_l |-> 217,tr_ntr |-> 25])
    >>
----


=============================================================================

---- CONFIG FigTrace_TTrace_1795049712 ----
CONSTANTS
    Judge <- FigJudge
    StNone = 0

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 00:55:13 UTC 2026