---------------------------- MODULE MonitorTrace ----------------------------
(* Monitors over recorded runs that do not depend on what the right events are:
     grammar    the events form a prefix of the language of EventGrammar, complete iff the
                run ended without an error
     ids        anchor identifiers are positive and increasing, aliases refer to earlier ones
     locations  offsets, lines and columns agree with the text
     safety     the run neither panicked nor ran away, and polling on afterwards is safe *)
EXTENDS EventGrammar, YamlChars, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Want == IOEnv.MONITOR

VARIABLES t, k, g, maxid, pos, status
vars == <<t, k, g, maxid, pos, status>>
View == <<t, k, status>>                  \* runs are deterministic: identifies the state

\* Offsets just after each line break of x
LineStarts(x) ==
  {0} \cup {p \in 1..Len(x) : x[p] = LF \/ (x[p] = CR /\ B(x, p) # LF)}
MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m
TrueMark(x, LS, m) ==
  LET before == {q \in LS : q <= m[1]} IN
  \/ m[1] <= Len(x) /\ m[2] = Cardinality(before) /\ m[3] = m[1] - MaxOf(before) + 1
  \/ m = <<Len(x), Cardinality(LS) + 1, 1>>          \* virtual break at the end of input

Report(what, rec) == PrintT("MISMATCH " \o ToJson(<<t, k + 1, what, rec>>))

LocOk(x, ev) ==
  LET sp == ev[8] a == <<sp[1], sp[2], sp[3]>> b == <<sp[4], sp[5], sp[6]>>
      LS == LineStarts(x)
      empty == ev[1] = "SC" /\ ev[2] = 0 /\ ev[3] = <<>>
  IN /\ TrueMark(x, LS, a) /\ TrueMark(x, LS, b)
     /\ a[1] <= b[1]
     /\ (empty \/ a[1] >= pos)

Judge(rec) ==
  CASE Want = "grammar" -> g'.ph # "bad"
    [] Want = "ids" -> /\ rec[4] >= 0
                       /\ rec[1] = "AL" => rec[4] > 0 /\ rec[4] <= maxid
                       /\ rec[1] # "AL" => rec[4] = 0 \/ rec[4] > maxid
    [] Want = "locations" -> LocOk(Trace[t].i, rec)
    [] OTHER -> TRUE

Final(f) ==
  CASE Want = "grammar" -> /\ f[1] \in {"END", "ERR"}
                           /\ f[1] = "END" <=> g.ph = "end"
                           /\ f[1] = "END" => Trace[t].g = "ok"
    [] Want = "locations" -> f[1] = "ERR" => TrueMark(Trace[t].i, LineStarts(Trace[t].i), f[3])
    [] Want = "safety" -> /\ f[1] \in {"END", "ERR"} /\ Trace[t].g = "ok"
                          /\ Len(Trace[t].e) <= 8 * Len(Trace[t].i) + 8
    [] OTHER -> TRUE

Init == t \in 1..Len(Trace) /\ k = 0 /\ g = GInit /\ maxid = 0 /\ pos = 0 /\ status = "run"

Next ==
  /\ status = "run" /\ UNCHANGED t
  /\ LET E == Trace[t].e IN
     IF k < Len(E)
     THEN LET rec == E[k + 1] IN
          /\ g' = GStep(g, rec[1])
          /\ maxid' = IF rec[4] > maxid THEN rec[4] ELSE maxid
          /\ pos' = IF rec[8][1] > pos THEN rec[8][1] ELSE pos
          /\ IF Judge(rec) THEN k' = k + 1 /\ status' = "run"
             ELSE UNCHANGED k /\ status' = "bad" /\ Report(Want, rec)
     ELSE /\ UNCHANGED <<k, g, maxid, pos>>
          /\ IF Final(Trace[t].f) THEN status' = "ok" ELSE status' = "bad" /\ Report(Want, Trace[t].f)
Spec == Init /\ [][Next]_vars
Holds == status # "bad"
=============================================================================
