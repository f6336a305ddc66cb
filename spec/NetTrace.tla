------------------------------- MODULE NetTrace ------------------------------
(* Judges recorded downloads.                                                 *)
EXTENDS TraceDriver, Net
NetJudge(s, ev) ==
    CASE ev.e = "init" -> OK(Start(ev.maxtry))
      [] ev.e = "try" ->
           IF ~CanTry(s) THEN BAD(s, "attempt after the final outcome")
           ELSE [st |-> Try(s, ev.o), bad |-> FirstBad(<<
                 <<"attempt for a different location", ev.url>>,
                 <<"attempt without the given timeout", ev.timeout>> >>)]
      [] ev.e = "ret" -> Verdict(s, << <<"returned without a successful attempt", s.pc = "done">>,
                                       <<"content returned", ev.content>> >>)
      [] ev.e = "raise" -> Verdict(s, << <<"error raised although attempts remain", s.pc # "run">>,
                                         <<"error raised after a successful attempt", s.pc # "done">>,
                                         <<"type of the error raised",
                                            s.pc = "bad" \/ ev.kind = "URLError">> >>)
      [] OTHER -> BAD(s, "unexpected exception")
=============================================================================
