----------------------------- MODULE WriteTrace -----------------------------
(* Recorded serializations: [i |-> text written, v |-> value written, s |-> shape to read it with,
   r |-> what the implementation reads back].  The behaviour takes the events of the text: they must
   be those of one document whose only node reads as the value. *)
EXTENDS YamlParser, Typed, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, s, E, docs, status
vars == <<t, k, s, E, docs, status>>
View == <<t, k, status>>
Report(a, b) == PrintT("MISMATCH " \o ToJson(<<t, k, a, b>>))

Init == /\ t \in 1..Len(Trace) /\ k = 0 /\ status = "run" /\ s = Init0(FALSE) /\ E = <<>> /\ docs = 0

\* a float must be written with all its digits
RECURSIVE SameWritten(_, _)
SameWritten(a, b) ==
  CASE a[1] \in {"float", "float32"} ->
         b[1] = "float" /\ (<<a[2], a[3], a[4]>> = <<b[2], b[3], b[4]>> \/ (Len(a[3]) > 9 /\ SameFloat(<<"float", a[2], a[3], a[4]>>, b)))
    [] a[1] = "some" -> b[1] = "some" /\ SameWritten(a[2], b[2])
    [] OTHER -> a = b
Judge(n) ==
  LET w == Read(E, 1, Trace[t].s) v == Trace[t].v IN
  IF ~Bad(n) /\ docs = 1 /\ w[1] = 1 /\ w[3] = Len(E) + 1 /\ SameWritten(w[2], v) /\ Trace[t].r = <<"ok", v>>
  THEN status' = "ok"
  ELSE status' = "bad" /\ Report(IF Bad(n) THEN <<"error">> ELSE w, <<v, Trace[t].r>>)
Next ==
  /\ status = "run" /\ UNCHANGED t /\ k' = k + 1
  /\ LET n == NextEvent(Trace[t].i, s) IN
     IF Bad(n) \/ n.ev[1] = "SE" THEN UNCHANGED <<s, E, docs>> /\ Judge(n)
     ELSE /\ s' = n /\ UNCHANGED status
          /\ E' = (IF n.ev[1] \in {"SS", "DS", "DE"} \/ docs > 1 THEN E ELSE Append(E, n.ev))
          /\ docs' = (IF n.ev[1] = "DS" THEN docs + 1 ELSE docs)
Spec == Init /\ [][Next]_vars
Conforms == status # "bad"
=============================================================================
