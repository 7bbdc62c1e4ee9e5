------------------------------ MODULE NodeTrace ------------------------------
(* Recorded histories of reads and writes on a node: [i |-> text, spanned |-> 0|1, t |-> tree at
   the start, sp |-> its spans, h |-> steps [op, at, arg, new, other, res, tree, copies, sp, nsp], ok |-> 1 if the constructors
   gave the tree asked for].  Each result, and the whole tree after each step, must be those of
   NodeModel; no step may change the spans of other nodes; an index or accessor that panics shows as "none". *)
EXTENDS NodeModel, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, n, s, status
vars == <<t, k, n, s, status>>
View == <<t, k, status>>                  \* runs are deterministic: identifies the state
Report(exp, rec) == PrintT("MISMATCH " \o ToJson(<<t, k + 1, exp, rec>>))

Init == t \in 1..Len(Trace) /\ k = 0 /\ n = Trace[t].t /\ s = Trace[t].sp /\ status = "run"

NoIndex == Trace[t].spanned = 1           \* that node type has neither index nor equality
Result(h) ==
  LET m == At(n, h.at)
      byKey == h.op \in {"read", "write"} /\ h.key = 1
      r == CASE NoIndex /\ h.op \in {"read", "write"} -> << <<"skip">>, m>>
             [] NoIndex /\ h.op = "equal" -> << <<>>, m>>
             [] OTHER -> Apply(m, h.op, byKey, h.arg, h.new, IF h.op = "equal" THEN At(n, h.other) ELSE <<>>)
  IN <<r[1], Put(n, h.at, r[2])>>
\* Nodes without index have spans: <<those handed out, those of the whole tree afterwards>>
Places(h) ==
  LET m == At(n, h.at) p == SpansAt(s, h.at) IN
  IF ~NoIndex THEN <<h.copies, h.sp>>
  ELSE IF h.op \in {"read", "write", "equal"} THEN << <<>>, s>>
  ELSE <<SpansOut(m, p, h.op), SpansPut(s, h.at, SpansAfter(m, p, h.op, FALSE, h.arg, h.nsp, IF h.op = "take" THEN SpansAt(h.sp, h.at) ELSE <<>>))>>

Next ==
  /\ status = "run" /\ UNCHANGED t
  /\ LET H == Trace[t].h IN
     IF k < Len(H)
     THEN LET h == H[k + 1] r == Result(h) IN
          IF r # <<h.res, h.tree>> THEN UNCHANGED <<k, n, s>> /\ status' = "bad" /\ Report(<<h.op, h.at, r>>, <<h.res, h.tree>>)
          ELSE LET q == Places(h) IN
               IF q # <<h.copies, h.sp>> THEN UNCHANGED <<k, n, s>> /\ status' = "bad" /\ Report(<<h.op, h.at, "spans", q>>, <<h.copies, h.sp>>)
               ELSE k' = k + 1 /\ n' = r[2] /\ s' = q[2] /\ UNCHANGED status
     ELSE /\ UNCHANGED <<k, n, s>>
          /\ IF Trace[t].ok = 1 THEN status' = "ok" ELSE status' = "bad" /\ Report("constructors", Trace[t].t)
Spec == Init /\ [][Next]_vars
Conforms == status # "bad"
=============================================================================
