----------------------------- MODULE BreaksTrace -----------------------------
(* The same text written with LF, CRLF and CR: [i |-> text with LF, runs |-> the three runs].
   The runs must agree event by event; a CR text in every location, a CRLF text in lines and
   columns, its offsets being larger by the breaks before them. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, status
vars == <<t, k, status>>
Report(what, rec) == PrintT("MISMATCH " \o ToJson(<<t, k + 1, what, rec>>))
Init == t \in 1..Len(Trace) /\ k = 0 /\ status = "run"

\* offset with CRLF of an offset with LF
Wide(x, p) == p + Cardinality({q \in 1..p : q <= Len(x) /\ x[q] = 10})
Mark(x, a, b) == b = <<Wide(x, a[1]), a[2], a[3]>>
Same(x, a, b, c) ==
  /\ c = a
  /\ SubSeq(b, 1, 7) = SubSeq(a, 1, 7)
  /\ Mark(x, SubSeq(a[8], 1, 3), SubSeq(b[8], 1, 3)) /\ Mark(x, SubSeq(a[8], 4, 6), SubSeq(b[8], 4, 6))

Next ==
  /\ status = "run" /\ UNCHANGED t
  /\ LET x == Trace[t].i R == Trace[t].runs A == R[1].e B == R[2].e C == R[3].e IN
     IF k < Len(A)
     THEN IF k < Len(B) /\ k < Len(C) /\ Same(x, A[k + 1], B[k + 1], C[k + 1])
          THEN k' = k + 1 /\ UNCHANGED status
          ELSE UNCHANGED k /\ status' = "bad"
               /\ Report(A[k + 1], <<IF k < Len(B) THEN B[k + 1] ELSE <<>>, IF k < Len(C) THEN C[k + 1] ELSE <<>> >>)
     ELSE /\ UNCHANGED k
          /\ LET f == R[1].f g == R[2].f h == R[3].f IN
             IF /\ Len(B) = k /\ Len(C) = k /\ f[1] \in {"END", "ERR"}
                /\ h = f /\ g[1] = f[1] /\ g[2] = f[2] /\ Mark(x, f[3], g[3])
             THEN status' = "ok" ELSE status' = "bad" /\ Report(f, <<g, h>>)
Spec == Init /\ [][Next]_vars
Conforms == status # "bad"
=============================================================================
