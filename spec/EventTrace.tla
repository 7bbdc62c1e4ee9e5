----------------------------- MODULE EventTrace -----------------------------
(* Trace validation: every line of the trace file is one run of the real parser,
   [i |-> input bytes, keep |-> keep_tags, e |-> events, f |-> outcome].  A behaviour of this
   module replays one run, one recorded event per step, against the transition NextEvent
   of the specification: the run conforms iff every recorded event is the one the
   specification produces and the run ends (or fails) exactly where the specification does. *)
EXTENDS YamlParser, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Spans == IOEnv.SPANS = "1"               \* compare source locations as well

VARIABLES t, k, s, status
vars == <<t, k, s, status>>
View == <<t, k, status>>                  \* runs are deterministic: identifies the state

Match(ev, rec) == IF Spans THEN ev = rec ELSE SubSeq(ev, 1, 7) = SubSeq(rec, 1, 7)
Report(n, rec) ==
  PrintT("MISMATCH " \o ToJson(<<t, k + 1, IF Bad(n) THEN <<"error", n.err[1], n.err[2]>> ELSE n.ev, rec>>))

Init == /\ t \in 1..Len(Trace) /\ k = 0 /\ status = "run"
        /\ s = Init0(Trace[t].keep = 1)

Outcome(n, f) ==                          \* after the last recorded event
  CASE f[1] = "END" -> s.st = <<"End">>
    [] f[1] = "ERR" -> s.st # <<"End">> /\ Bad(n) /\ (Spans => n.err[2] = f[3])
    [] OTHER -> FALSE

Next ==
  /\ status = "run"
  /\ UNCHANGED t
  /\ LET x == Trace[t].i
         E == Trace[t].e
         n == IF s.st = <<"End">> THEN s ELSE NextEvent(x, s)
     IN IF k < Len(E)
        THEN IF s.st # <<"End">> /\ ~Bad(n) /\ Match(n.ev, E[k + 1])
             THEN k' = k + 1 /\ s' = n /\ status' = "run"
             ELSE UNCHANGED <<k, s>> /\ status' = "bad" /\ Report(n, E[k + 1])
        ELSE /\ UNCHANGED <<k, s>>
             /\ IF Outcome(n, Trace[t].f) THEN status' = "ok"
                ELSE status' = "bad" /\ Report(n, Trace[t].f)
Spec == Init /\ [][Next]_vars

Conforms == status # "bad"
=============================================================================
