------------------------------ MODULE WaysTrace ------------------------------
(* One text read in every way the crates offer, each way ending in <<outcome, size or events>>:
   [i |-> input, e |-> <<kind, number>> of the parser's events, f |-> how they end, w |-> the other ways].
   Equal numbers stand for the same event but for its location.
   All of them must end, and as the events do: the loaders fail iff the events fail (those of a
   single document only before its end), receivers get every event, the iterator those of the first
   document, and nothing is deserialized from a document without a complete root node. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, depth, docs, first, root, status
vars == <<t, k, depth, docs, first, root, status>>
View == <<t, k, status>>
(* k events read; depth of open collections, documents started, index of the first document end
   (0: none), and whether the root node of the first document is complete *)
Init == t \in 1..Len(Trace) /\ k = 0 /\ depth = 0 /\ docs = 0 /\ first = 0 /\ root = FALSE /\ status = "run"

Quiet == {"ok", "err", "none"}
Holds(r) ==
  LET w == r.w n == Len(r.e)
      end == r.f = "END"
      all == IF end THEN "ok" ELSE "err"
      one == IF first > 0 THEN <<"ok", 1>> ELSE IF ~end THEN <<"err", 0>> ELSE <<"none", 0>>
      numbers == [j \in 1..n |-> r.e[j][2]]
      part == IF first > 0 THEN <<"ok", SubSeq(numbers, 1, first)>> ELSE <<all, numbers>>
  IN /\ r.f \in {"END", "ERR"} /\ r.g = "ok"
     /\ \A c \in DOMAIN w : w[c][1] \in Quiet
     /\ n <= 8 * Len(r.i) + 8
     /\ \A c \in {"load", "parser"} : w[c] = IF end THEN <<"ok", docs>> ELSE <<"err", 0>>
     /\ \A c \in {"single", "source"} : w[c] = one
     /\ w["events"] = <<all, numbers>> /\ w["peeked"] = <<all, numbers>>
     /\ w["first"] = part
     /\ w["iter"] = <<"ok", IF docs = 0 THEN <<>> ELSE SubSeq(part[2], 2, Len(part[2]))>>
     /\ \A c \in DOMAIN w \ {"load", "parser", "single", "source", "events", "peeked", "first", "iter"} :
          w[c][1] = "ok" => root
Next ==
  /\ status = "run" /\ UNCHANGED t
  /\ LET r == Trace[t] IN
     IF k < Len(r.e)
     THEN LET c == r.e[k + 1][1]
              d == IF c \in {"QS", "MS"} THEN depth + 1 ELSE IF c \in {"QE", "ME"} THEN depth - 1 ELSE depth
          IN /\ k' = k + 1 /\ depth' = d /\ UNCHANGED status
             /\ docs' = docs + (IF c = "DS" THEN 1 ELSE 0)
             /\ first' = IF c = "DE" /\ first = 0 THEN k + 1 ELSE first
             /\ root' = (root \/ (docs = 1 /\ d = 0 /\ c \in {"SC", "AL", "QE", "ME"}))
     ELSE /\ UNCHANGED <<k, depth, docs, first, root>>
          /\ IF Holds(r) THEN status' = "ok"
             ELSE status' = "bad" /\ PrintT("MISMATCH " \o ToJson(<<t, k, <<docs, first, root, r.f, Len(r.e)>>, r.w>>))
Spec == Init /\ [][Next]_vars
Agree == status # "bad"
=============================================================================
