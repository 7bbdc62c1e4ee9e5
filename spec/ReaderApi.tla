------------------------------ MODULE ReaderApi ------------------------------
(* The reading interface of one parser as a state machine over the event layer.
     s      state of the event layer
     cur    event looked at but not consumed, <<>> or <<event>>
     ended  advancing has returned the end of the stream
     last   kind of the last event consumed ("SS" before the first)
     ev     event the last step consumed or showed
   Operations: Advance (Iterator::next, next_event), Look (peek), Deliver (load of one document or
   of all, at a document boundary), Names (get_anchor). *)
EXTENDS YamlParser

RInit(keep) == [s |-> Init0(keep), cur |-> <<>>, ended |-> FALSE, last |-> "SS", ev |-> <<>>]

EndEvent(s) == <<"SE", 0, <<>>, 0, 0, <<>>, <<>>, Mk(s) \o Mk(s)>>

\* The next event becomes a.ev and leaves the lookahead; errors show in a.s.err, where an error
\* that was looked at stays until it is consumed
Take(x, a) ==
  IF Bad(a.s) THEN a
  ELSE IF a.cur # <<>> THEN [a EXCEPT !.cur = <<>>, !.ev = a.cur[1], !.last = a.cur[1][1]]
  ELSE IF a.s.st = <<"End">> THEN [a EXCEPT !.ev = EndEvent(a.s), !.last = "SE"]
  ELSE LET n == NextEvent(x, a.s) IN
       IF Bad(n) THEN [a EXCEPT !.s = n]
       ELSE [a EXCEPT !.s = n, !.ev = n.ev, !.last = n.ev[1]]

\* Results: <<"none">>, <<"ev", event>>, <<"err", mark>>
Shown(a) == IF Bad(a.s) THEN <<"err", a.s.err[2]>> ELSE <<"ev", a.ev>>

Advance(x, a) ==
  IF a.ended THEN <<a, <<"none">> >>
  ELSE LET b == Take(x, a) IN <<IF ~Bad(b.s) /\ b.ev[1] = "SE" THEN [b EXCEPT !.ended = TRUE] ELSE b, Shown(b)>>

Look(x, a) ==
  IF a.cur # <<>> THEN <<a, <<"ev", a.cur[1]>> >>
  ELSE IF a.ended THEN <<a, <<"none">> >>
  ELSE LET b == Take(x, a) IN
       <<IF Bad(b.s) THEN b ELSE [b EXCEPT !.cur = <<b.ev>>, !.last = a.last], Shown(b)>>

Boundary(a) == a.last \in {"SS", "DE", "SE"}

\* Pushing events: up to the end of one document, or to the end of the stream
RECURSIVE Pull(_, _, _, _)
Pull(x, a, multi, out) ==
  LET b == Take(x, a) IN
  IF Bad(b.s) THEN <<b, <<"stop", out, b.s.err[2]>> >>
  ELSE LET o == Append(out, b.ev) IN
       IF b.ev[1] = "SE" \/ (b.ev[1] = "DE" /\ ~multi) THEN <<b, <<"ok", o>> >>
       ELSE Pull(x, b, multi, o)
Deliver(x, a, multi) == Pull(x, a, multi, <<>>)

\* Names of the anchors 1..4 as far as they are in force: <<>> or <<name>>
Names(a) == [j \in 1..4 |->
  LET S == {n \in {a.s.anc[q][1] : q \in 1..Len(a.s.anc)} : Lookup(a.s.anc, n) = <<j>>} IN
  IF S = {} THEN <<>> ELSE <<CHOOSE n \in S : TRUE>>]

\* The flattened iterator: the nodes of the first document between its start and its end
RECURSIVE FlatFrom(_, _, _)
FlatFrom(x, a, out) ==
  LET b == Take(x, a) IN
  IF Bad(b.s) THEN out
  ELSE CASE b.ev[1] = "SS" -> FlatFrom(x, b, out)
         [] b.ev[1] = "SE" -> out
         [] b.ev[1] = "DE" -> Append(out, SubSeq(b.ev, 1, 7))
         [] b.ev[1] = "DS" -> FlatFrom(x, b, Append(out, [SubSeq(b.ev, 1, 7) EXCEPT ![2] = 0]))
         [] OTHER -> FlatFrom(x, b, Append(out, SubSeq(b.ev, 1, 7)))
Flat(x) == FlatFrom(x, RInit(FALSE), <<>>)
=============================================================================
