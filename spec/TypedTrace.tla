----------------------------- MODULE TypedTrace -----------------------------
(* Recorded deserializations: [i |-> input, s |-> shape, r |-> <<"ok", value>> or <<"ERR">>].
   The behaviour takes the specification's own events of the first document and then reads the
   shape from them. *)
EXTENDS YamlParser, Typed, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, s, E, status
vars == <<t, k, s, E, status>>
View == <<t, k, status>>
Report(a, b) == PrintT("MISMATCH " \o ToJson(<<t, k, a, b>>))

Init == /\ t \in 1..Len(Trace) /\ k = 0 /\ status = "run" /\ s = Init0(FALSE) /\ E = <<>>

Judge == LET w == Read(E, 1, Trace[t].s) r == Trace[t].r IN
         IF IF w[1] = 1 THEN r[1] = "ok" /\ SameTyped(w[2], r[2]) ELSE r[1] = "ERR"
         THEN status' = "ok"
         ELSE status' = "bad" /\ Report(w, r)
Next ==
  /\ status = "run" /\ UNCHANGED t /\ k' = k + 1
  /\ LET n == NextEvent(Trace[t].i, s) IN
     IF Bad(n) \/ n.ev[1] \in {"DE", "SE"} THEN UNCHANGED <<s, E>> /\ Judge
     ELSE s' = n /\ E' = (IF n.ev[1] \in {"SS", "DS"} THEN E ELSE Append(E, n.ev)) /\ UNCHANGED status
Spec == Init /\ [][Next]_vars
Conforms == status # "bad"
=============================================================================
