---------------------------- MODULE GrammarTrace ----------------------------
(* Recorded runs against the declarative grammar of YAML 1.2: a text of the language yields
   exactly its events; any other text is an error, or one of the listed leniencies of Yaml12. *)
EXTENDS TLC, Json, IOUtils, Integers, Sequences, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
Strict == INSTANCE Yaml12 WITH Lenient <- FALSE
Loose  == INSTANCE Yaml12 WITH Lenient <- TRUE
VARIABLES t, status
Init == t \in 1..Len(Trace) /\ status = "run"
Events(q) == [j \in 1..Len(q) |-> SubSeq(q[j], 1, 7)]
Next ==
  /\ status = "run" /\ UNCHANGED t
  /\ LET r == Trace[t]
         e == Events(r.e)
         end == r.f[1] = "END"
         G == Strict!Y12(r.i)
         ok == CASE G # {}         -> Cardinality(G) = 1 /\ end /\ e \in G
                 [] r.f[1] = "ERR" -> TRUE
                 [] end            -> e \in Loose!Y12(r.i)
                 [] OTHER          -> FALSE
     IN IF ok THEN status' = "ok"
        ELSE status' = "bad" /\ PrintT("MISMATCH " \o ToJson(<<t, IF G = {} THEN 1 ELSE IF Cardinality(G) > 1 THEN 0 ELSE 2,
                                                              IF G = {} THEN "no YAML" ELSE CHOOSE q \in G : TRUE, e>>))
Spec == Init /\ [][Next]_<<t, status>>
Conforms == status # "bad"
=============================================================================
