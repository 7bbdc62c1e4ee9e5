------------------------------- MODULE Loader -------------------------------
(* From events to trees.  The state L of the loader:
     docs   finished documents
     stack  open collections, innermost last: <<kind, items so far, pending key (<<>> or <<k>>),
            anchor, tag <<has, handle, suffix>> >>
     root   root node of the document being read, <<>> or <<node>>
     anch   anchored nodes <<id, node>> *)
EXTENDS CoreSchema

LInit == [docs |-> <<>>, stack |-> <<>>, root |-> <<>>, anch |-> <<>>]

RECURSIVE NodeOf(_, _, _)
NodeOf(q, id, j) == IF j = 0 THEN <<"bad">> ELSE IF q[j][1] = id THEN q[j][2] ELSE NodeOf(q, id, j - 1)

Place(L, n) ==                                  \* a finished node goes where it belongs
  IF L.stack = <<>> THEN [L EXCEPT !.root = <<n>>]
  ELSE LET d == Len(L.stack) top == L.stack[d] IN
       [L EXCEPT !.stack[d] =
          IF top[1] = "seq" THEN [top EXCEPT ![2] = Append(@, n)]
          ELSE IF top[3] = <<>> THEN [top EXCEPT ![3] = <<n>>]
          ELSE [top EXCEPT ![2] = Append(@, <<top[3][1], n>>), ![3] = <<>>]]
Anchor(L, id, n) == IF id > 0 THEN [L EXCEPT !.anch = Append(@, <<id, n>>)] ELSE L
Add(L, id, n) == Place(Anchor(L, id, n), n)

LStep(L, ev) ==
  CASE ev[1] = "SC" -> Add(L, ev[4], ScalarNode(ev))
    [] ev[1] = "AL" -> Place(L, NodeOf(L.anch, ev[4], Len(L.anch)))
    [] ev[1] = "QS" -> [L EXCEPT !.stack = Append(@, <<"seq", <<>>, <<>>, ev[4], <<ev[5], ev[6], ev[7]>> >>)]
    [] ev[1] = "MS" -> [L EXCEPT !.stack = Append(@, <<"map", <<>>, <<>>, ev[4], <<ev[5], ev[6], ev[7]>> >>)]
    [] ev[1] \in {"QE", "ME"} ->
         LET top == L.stack[Len(L.stack)]
             c == <<top[1], top[2]>>
             n == IF top[5][1] = 1 /\ top[5][2] # CoreHandle THEN <<"tag", top[5][2], top[5][3], c>> ELSE c
         IN Add([L EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)], top[4], n)
    [] ev[1] = "DE" -> [L EXCEPT !.docs = Append(@, L.root[1]), !.root = <<>>]
    [] OTHER -> L
=============================================================================
