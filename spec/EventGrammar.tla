---------------------------- MODULE EventGrammar ----------------------------
(* The language of event streams as a pushdown automaton: the state is a phase and the
   stack of open collections <<"seq">>, <<"map", number of nodes so far modulo 2>>. *)
EXTENDS Integers, Sequences

GInit == [ph |-> "init", st |-> <<>>]
GBad  == [ph |-> "bad", st |-> <<>>]

\* one more node was completed
Count(st) == IF st # <<>> /\ st[Len(st)][1] = "map"
             THEN [st EXCEPT ![Len(st)] = <<"map", 1 - @[2]>>] ELSE st
Done(g) == IF g.st = <<>> THEN [g EXCEPT !.ph = "docdone"] ELSE [g EXCEPT !.st = Count(@)]

GStep(g, k) ==
  CASE g.ph = "init"    -> IF k = "SS" THEN [g EXCEPT !.ph = "stream"] ELSE GBad
    [] g.ph = "stream"  -> IF k = "DS" THEN [g EXCEPT !.ph = "node"]
                           ELSE IF k = "SE" THEN [g EXCEPT !.ph = "end"] ELSE GBad
    [] g.ph = "node"    ->
         IF k \in {"SC", "AL"} THEN Done(g)
         ELSE IF k = "QS" THEN [g EXCEPT !.st = Append(@, <<"seq", 0>>)]
         ELSE IF k = "MS" THEN [g EXCEPT !.st = Append(@, <<"map", 0>>)]
         ELSE IF g.st # <<>> /\ g.st[Len(g.st)] = <<IF k = "QE" THEN "seq" ELSE "map", 0>>
                 /\ k \in {"QE", "ME"}
              THEN Done([g EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)])
         ELSE GBad
    [] g.ph = "docdone" -> IF k = "DE" THEN [g EXCEPT !.ph = "stream"] ELSE GBad
    [] OTHER -> GBad                        \* nothing follows StreamEnd
=============================================================================
