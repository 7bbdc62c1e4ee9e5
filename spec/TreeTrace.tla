----------------------------- MODULE TreeTrace -----------------------------
(* Recorded loads: [i |-> input, keep, docs |-> <<"ok", trees>> or <<"ERR">>, single |-> <<"ok", tree>>,
   <<"none">> or <<"ERR">>, same |-> 1 if every other way of loading gave the same].
   The behaviour walks the specification's own events of the input through the loader and then
   compares the trees. *)
EXTENDS YamlParser, Loader, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, s, l, first, status
vars == <<t, k, s, l, first, status>>
View == <<t, k, status>>                  \* runs are deterministic: identifies the state
Report(what, a, b) == PrintT("MISMATCH " \o ToJson(<<t, k, <<what, a>>, b>>))

Init == /\ t \in 1..Len(Trace) /\ k = 0 /\ status = "run"
        /\ s = Init0(Trace[t].keep = 1) /\ l = LInit /\ first = <<"ERR">>

\* what loading a single document returns: decided when its end, the end of the stream or an error is seen
Single(n, L) == IF first # <<"ERR">> THEN first
                ELSE IF Bad(n) THEN <<"ERR">>
                ELSE IF Len(L.docs) > 0 THEN <<"ok", L.docs[1]>>
                ELSE IF n.ev[1] = "SE" THEN <<"none">> ELSE <<"ERR">>
SameSingle(a, b) == a[1] = b[1] /\ (a[1] = "ok" => SameTree(a[2], b[2]))
AllDocs(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : SameTree(a[j], b[j])

Next ==
  /\ status = "run" /\ UNCHANGED t
  /\ IF s.st # <<"End">>
     THEN LET n == NextEvent(Trace[t].i, s)
              L == IF Bad(n) THEN l ELSE LStep(l, n.ev)
          IN /\ k' = k + 1
             /\ IF Bad(n)
                THEN /\ UNCHANGED <<s, l, first>>
                     /\ IF Trace[t].docs[1] = "ERR" /\ Trace[t].same = 1
                           /\ SameSingle(Single(n, l), Trace[t].single)
                        THEN status' = "ok"
                        ELSE status' = "bad" /\ Report("error", Single(n, l), <<Trace[t].docs, Trace[t].single, Trace[t].same>>)
                ELSE s' = n /\ l' = L /\ first' = Single(n, L) /\ UNCHANGED status
     ELSE /\ UNCHANGED <<k, s, l, first>>
          /\ IF /\ Trace[t].docs[1] = "ok" /\ AllDocs(l.docs, Trace[t].docs[2])
                /\ SameSingle(first, Trace[t].single) /\ Trace[t].same = 1
             THEN status' = "ok"
             ELSE status' = "bad" /\ Report("trees", <<l.docs, first>>, <<Trace[t].docs, Trace[t].single, Trace[t].same>>)
Spec == Init /\ [][Next]_vars
Conforms == status # "bad"
=============================================================================
