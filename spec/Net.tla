--------------------------------- MODULE Net ---------------------------------
(* Download of a file with a limited number of attempts.  An attempt that     *)
(* times out (while connecting, waiting for the response or reading it) may   *)
(* be followed by another one; every other outcome is final.                  *)
EXTENDS Integers, Sequences
Timeouts == {"connect timeout", "response timeout", "read timeout"}
Errors == {"url error", "refused", "reset", "http error", "read reset"}
Outcomes == Timeouts \cup Errors \cup {"ok"}
(* state: maxtry, number of attempts n, pc: run, done, fail (an error raised  *)
(* because of the last attempt), bad (no attempt allowed)                     *)
Start(m) == [maxtry |-> m, n |-> 0, pc |-> IF m > 0 THEN "run" ELSE "bad"]
CanTry(s) == s.pc = "run"
Try(s, o) ==
    LET n == s.n + 1 IN
    [s EXCEPT !.n = n,
              !.pc = CASE o = "ok" -> "done"
                       [] o \in Timeouts -> (IF n < s.maxtry THEN "run" ELSE "fail")
                       [] OTHER -> "fail"]
=============================================================================
