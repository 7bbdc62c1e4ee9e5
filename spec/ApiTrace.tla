------------------------------ MODULE ApiTrace ------------------------------
(* Recorded histories of calls on the real parser, [i |-> input, keep, ops |-> operations,
   res |-> their results, it |-> items of ParserIter, itg |-> "ok"]: each result must be the one
   ReaderApi gives.  0 next, 1 peek, 2 load one, 3 load all, 4 and 5 the same without
   locations, 6 get_anchor. *)
EXTENDS ReaderApi, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, a, status
vars == <<t, k, a, status>>
View == <<t, k, status>>                  \* runs are deterministic: identifies the state
Report(exp, rec) == PrintT("MISMATCH " \o ToJson(<<t, k + 1, exp, rec>>))

Init == t \in 1..Len(Trace) /\ k = 0 /\ a = RInit(Trace[t].keep = 1) /\ status = "run"

NoSpans(q) == [j \in 1..Len(q) |-> SubSeq(q[j], 1, 7)]
Result(x, op) ==
  CASE op = 0 -> Advance(x, a)
    [] op = 1 -> Look(x, a)
    [] op \in {2, 3} /\ Boundary(a) -> Deliver(x, a, op = 3)
    [] op \in {4, 5} /\ Boundary(a) -> LET d == Deliver(x, a, op = 5) IN <<d[1], [d[2] EXCEPT ![2] = NoSpans(@)]>>
    [] op = 6 -> <<a, <<"names", Names(a)>> >>
    [] OTHER -> <<a, <<"skip">> >>

Next ==
  /\ status = "run" /\ UNCHANGED t
  /\ LET R == Trace[t].res IN
     IF k < Len(R)
     THEN LET r == Result(Trace[t].i, Trace[t].ops[k + 1]) IN
          IF r[2] = R[k + 1] THEN k' = k + 1 /\ a' = r[1] /\ UNCHANGED status
          ELSE UNCHANGED <<k, a>> /\ status' = "bad" /\ Report(r[2], R[k + 1])
     ELSE /\ UNCHANGED <<k, a>>
          /\ LET f == Flat(Trace[t].i) IN
             IF Trace[t].it = f /\ Trace[t].itg = "ok"
                /\ (Len(R) = Len(Trace[t].ops) \/ Bad(a.s)) THEN status' = "ok"
             ELSE status' = "bad" /\ Report(<<"iter", f>>, <<Trace[t].it, Trace[t].itg, Len(R)>>)
Spec == Init /\ [][Next]_vars
Conforms == status # "bad"
=============================================================================
