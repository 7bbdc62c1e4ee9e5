----------------------------- MODULE YamlParser -----------------------------
(* The event layer: a pushdown automaton over the scanner's tokens.  On top of the
   scanner's fields the record s has
     st, sts     current state and stack of return states
     pk          token looked at but not consumed (<<>> = none)
     anc, aid    anchors of the document <<name, id>>, next id
     tags        %TAG directives of the document <<handle, prefix>>
     keep        tag directives outlive their document (Parser::keep_tags)
     ev          last event
   An event is <<kind, style, value, anchor, tagged, handle, suffix, span>>. *)
EXTENDS YamlScanner

Init0(keep) ==
  [p |-> 0, ln |-> 1, ls |-> 0, lw |-> TRUE, T |-> <<>>, tp |-> 0, K |-> <<>>, I |-> <<>>, i |-> 0,
   M |-> <<>>, ok |-> FALSE, adj |-> -1, fl |-> 0, beg |-> FALSE, fin |-> FALSE,
   err |-> <<>>, tok |-> <<>>, tok0 |-> <<>>,
   st |-> <<"StreamStart">>, sts |-> <<>>, pk |-> <<>>, anc |-> <<>>, aid |-> 1, tags |-> <<>>,
   keep |-> keep, ev |-> <<>>]

Peek(x, s) ==
  IF s.pk # <<>> THEN s
  ELSE LET s1 == NextToken(x, s) IN IF Bad(s1) THEN s1 ELSE [s1 EXCEPT !.pk = s1.tok]
Skip(s)  == [s EXCEPT !.pk = <<>>]
Ty(s)    == s.pk[1]
Sp(s)    == s.pk[4] \o s.pk[5]
At0(m)   == m \o m

NoTag == <<0, <<>>, <<>> >>
Emit(s, k, sty, v, a, t, span) == [s EXCEPT !.ev = <<k, sty, v, a, t[1], t[2], t[3], span>>]
Simple(s, k, span) == Emit(s, k, 0, <<>>, 0, NoTag, span)
Empty(s, span) == Simple(s, "SC", span)
Goto(s, n) == [s EXCEPT !.st = <<n>>]
Pop(s) == [s EXCEPT !.st = s.sts[Len(s.sts)], !.sts = SubSeq(@, 1, Len(@) - 1)]
PushSt(s, n) == [s EXCEPT !.sts = Append(@, <<n>>)]
PErr(s, what) == Fail(s, what, s.pk[4])

\* ------------------------------------------------------------------ lookups
RECURSIVE Find(_, _, _)
Find(q, k, j) == IF j = 0 THEN <<>> ELSE IF q[j][1] = k THEN <<q[j][2]>> ELSE Find(q, k, j - 1)
Lookup(q, k) == Find(q, k, Len(q))                     \* the latest binding wins

\* Tag as resolved: <<1, handle, suffix>>, <<>> if the handle is not declared
CorePrefix == <<116,97,103,58,121,97,109,108,46,111,114,103,44,50,48,48,50,58>>  \* tag:yaml.org,2002:
ResolveTag(s, h, suf) ==
  LET d == Lookup(s.tags, h) IN
  IF h = <<>> THEN <<1, <<>>, suf>>
  ELSE IF d # <<>> THEN <<1, d[1], suf>>
  ELSE IF h = <<BANG, BANG>> THEN <<1, CorePrefix, suf>>
  ELSE IF h = <<BANG>> THEN <<1, h, suf>>
  ELSE <<>>

\* -------------------------------------------------------------------- nodes
NodeBody(s, block, indentless, a, t) ==
  LET ty == Ty(s) IN
  CASE ty = "BlockEntry" /\ indentless -> Emit(Goto(s, "IndentlessEntry"), "QS", 0, <<>>, a, t, Sp(s))
    [] ty = "Scalar" -> Skip(Emit(Pop(s), "SC", s.pk[2], s.pk[3], a, t, Sp(s)))
    [] ty = "FlowSequenceStart" -> Emit(Goto(s, "FlowSeqFirst"), "QS", 0, <<>>, a, t, Sp(s))
    [] ty = "FlowMappingStart" -> Emit(Goto(s, "FlowMapFirst"), "MS", 0, <<>>, a, t, Sp(s))
    [] ty = "BlockSequenceStart" /\ block -> Emit(Goto(s, "BlockSeqFirst"), "QS", 0, <<>>, a, t, Sp(s))
    [] ty = "BlockMappingStart" /\ block -> Emit(Goto(s, "BlockMapFirst"), "MS", 0, <<>>, a, t, Sp(s))
    [] OTHER -> IF t[1] = 1 \/ a > 0 THEN Emit(Pop(s), "SC", 0, <<>>, a, t, Sp(s))
                ELSE PErr(s, "node content")

AddAnchor(s) == Skip([s EXCEPT !.anc = Append(@, <<s.pk[2], s.aid>>), !.aid = @ + 1])

\* properties in either order, each at most once
ParseNode(x, s0, block, indentless) ==
  LET s == Peek(x, s0) IN
  IF Bad(s) THEN s
  ELSE
  CASE Ty(s) = "Alias" ->
         LET d == Lookup(s.anc, s.pk[2]) IN
         IF d = <<>> THEN PErr(s, "unknown anchor")
         ELSE Skip(Emit(Pop(s), "AL", 0, <<>>, d[1], NoTag, Sp(s)))
    [] Ty(s) = "Anchor" ->
         LET s1 == Peek(x, AddAnchor(s)) IN
         IF Bad(s1) THEN s1
         ELSE IF Ty(s1) # "Tag" THEN NodeBody(s1, block, indentless, s.aid, NoTag)
         ELSE LET t == ResolveTag(s1, s1.pk[2], s1.pk[3]) IN
              IF t = <<>> THEN Fail(s1, "undeclared handle", s.pk[4])
              ELSE LET s2 == Peek(x, Skip(s1)) IN
                   IF Bad(s2) THEN s2 ELSE NodeBody(s2, block, indentless, s.aid, t)
    [] Ty(s) = "Tag" ->
         LET t == ResolveTag(s, s.pk[2], s.pk[3]) IN
         IF t = <<>> THEN PErr(s, "undeclared handle")
         ELSE LET s1 == Peek(x, Skip(s)) IN
              IF Bad(s1) THEN s1
              ELSE IF Ty(s1) # "Anchor" THEN NodeBody(s1, block, indentless, 0, t)
              ELSE LET s2 == Peek(x, AddAnchor(s1)) IN
                   IF Bad(s2) THEN s2 ELSE NodeBody(s2, block, indentless, s1.aid, t)
    [] OTHER -> NodeBody(s, block, indentless, 0, NoTag)

\* ---------------------------------------------------------------- documents
RECURSIVE SkipDocEnds(_, _)
SkipDocEnds(x, s) ==
  LET s1 == Peek(x, s) IN
  IF Bad(s1) \/ Ty(s1) # "DocumentEnd" THEN s1 ELSE SkipDocEnds(x, Skip(s1))

\* Collects directives; new = tag directives of this document
RECURSIVE Directives(_, _, _, _)
Directives(x, s0, ver, new) ==
  LET s == Peek(x, s0) IN
  IF Bad(s) THEN s
  ELSE IF Ty(s) = "Version"
  THEN IF ver THEN PErr(s, "duplicate %YAML") ELSE Directives(x, Skip(s), TRUE, new)
  ELSE IF Ty(s) = "TagDir"
  THEN IF Lookup(new, s.pk[2]) # <<>> THEN PErr(s, "duplicate %TAG")
       ELSE Directives(x, Skip(s), ver,
              IF s.pk[2] = <<>> THEN new ELSE Append(new, <<s.pk[2], s.pk[3]>>))
  ELSE [s EXCEPT !.tags = @ \o new, !.anc = <<>>]

ExplicitDoc(x, s0) ==
  LET s == Directives(x, s0, FALSE, <<>>) IN
  IF Bad(s) THEN s
  ELSE IF Ty(s) # "DocumentStart" THEN PErr(s, "document start expected")
  ELSE Skip(Emit(Goto(PushSt(s, "DocumentEnd"), "DocumentContent"), "DS", 1, <<>>, 0, NoTag, Sp(s)))

DocumentStart(x, s0, implicit) ==
  LET s == SkipDocEnds(x, s0) IN
  IF Bad(s) THEN s
  ELSE IF Ty(s) = "StreamEnd" THEN Skip(Simple(Goto(s, "End"), "SE", Sp(s)))
  ELSE IF ~implicit \/ Ty(s) \in {"Version", "TagDir", "DocumentStart"} THEN ExplicitDoc(x, s)
  ELSE Simple(Goto(PushSt([s EXCEPT !.anc = <<>>], "DocumentEnd"), "BlockNode"), "DS", Sp(s))

DocumentContent(x, s0) ==
  LET s == Peek(x, s0) IN
  IF Bad(s) THEN s
  ELSE IF Ty(s) \in {"Version", "TagDir", "DocumentStart", "DocumentEnd", "StreamEnd"}
  THEN Empty(Pop(s), Sp(s))
  ELSE ParseNode(x, s, TRUE, FALSE)

DocumentEnd(x, s0) ==
  LET s == Peek(x, s0) IN
  IF Bad(s) THEN s
  ELSE LET s1 == [s EXCEPT !.tags = IF s.keep THEN @ ELSE <<>>] IN
       IF Ty(s) = "DocumentEnd" THEN Skip(Simple(Goto(s1, "ImplicitDocument"), "DE", Sp(s)))
       ELSE IF Ty(s) \in {"Version", "TagDir"} THEN PErr(s, "directive without document end")
       ELSE Simple(Goto(s1, "Document"), "DE", Sp(s))

\* --------------------------------------------------------- block collections
First(x, s) == Skip(Peek(x, s))            \* drop the token that opened the collection
NoNode == {"Key", "Value", "BlockEnd"}

BlockMapKey(x, s0, first) ==
  LET s == Peek(x, IF first THEN First(x, s0) ELSE s0) IN
  IF Bad(s) THEN s
  ELSE
  CASE Ty(s) = "Key" ->
         LET s1 == Peek(x, Skip(s)) IN
         IF Bad(s1) THEN s1
         ELSE IF Ty(s1) \in NoNode THEN Empty(Goto(s1, "BlockMapValue"), Sp(s1))
         ELSE ParseNode(x, PushSt(s1, "BlockMapValue"), TRUE, TRUE)
    [] Ty(s) = "Value" -> Empty(Goto(s, "BlockMapValue"), Sp(s))
    [] Ty(s) = "BlockEnd" -> Skip(Simple(Pop(s), "ME", Sp(s)))
    [] OTHER -> PErr(s, "key expected")

BlockMapValue(x, s0) ==
  LET s == Peek(x, s0) IN
  IF Bad(s) THEN s
  ELSE IF Ty(s) # "Value" THEN Empty(Goto(s, "BlockMapKey"), Sp(s))
  ELSE LET s1 == Peek(x, Skip(s)) IN
       IF Bad(s1) THEN s1
       ELSE IF Ty(s1) \in NoNode THEN Empty(Goto(s1, "BlockMapKey"), Sp(s1))
       ELSE ParseNode(x, PushSt(s1, "BlockMapKey"), TRUE, TRUE)

BlockSeqEntry(x, s0, first) ==
  LET s == Peek(x, IF first THEN First(x, s0) ELSE s0) IN
  IF Bad(s) THEN s
  ELSE
  CASE Ty(s) = "BlockEnd" -> Skip(Simple(Pop(s), "QE", Sp(s)))
    [] Ty(s) = "BlockEntry" ->
         LET s1 == Peek(x, Skip(s)) IN
         IF Bad(s1) THEN s1
         ELSE IF Ty(s1) \in {"BlockEntry", "BlockEnd"} THEN Empty(Goto(s1, "BlockSeq"), Sp(s1))
         ELSE ParseNode(x, PushSt(s1, "BlockSeq"), TRUE, FALSE)
    [] OTHER -> PErr(s, "'-' expected")

IndentlessEntry(x, s0) ==
  LET s == Peek(x, s0) IN
  IF Bad(s) THEN s
  ELSE IF Ty(s) # "BlockEntry" THEN Simple(Pop(s), "QE", Sp(s))
  ELSE LET s1 == Peek(x, Skip(s)) IN
       IF Bad(s1) THEN s1
       ELSE IF Ty(s1) \in NoNode \cup {"BlockEntry"} THEN Empty(Goto(s1, "IndentlessEntry"), Sp(s))
       ELSE ParseNode(x, PushSt(s1, "IndentlessEntry"), TRUE, FALSE)

\* ---------------------------------------------------------- flow collections
FlowMapKey(x, s0, first) ==
  LET s == Peek(x, IF first THEN First(x, s0) ELSE s0)
      EndMap(z, span) == Skip(Simple(Pop(z), "ME", span))
  IN
  IF Bad(s) THEN s
  ELSE IF Ty(s) = "FlowMappingEnd" THEN EndMap(s, Sp(s))
  ELSE IF ~first /\ Ty(s) # "FlowEntry" THEN PErr(s, "',' or '}' expected")
  ELSE LET s1 == Peek(x, IF first THEN s ELSE Skip(s)) IN
       IF Bad(s1) THEN s1
       ELSE
       CASE Ty(s1) = "Key" ->
              LET s2 == Peek(x, Skip(s1)) IN
              IF Bad(s2) THEN s2
              ELSE IF Ty(s2) \in {"Value", "FlowEntry", "FlowMappingEnd"}
              THEN Empty(Goto(s2, "FlowMapValue"), Sp(s2))
              ELSE ParseNode(x, PushSt(s2, "FlowMapValue"), FALSE, FALSE)
         [] Ty(s1) = "Value" -> Empty(Goto(s1, "FlowMapValue"), Sp(s1))
         [] Ty(s1) = "FlowMappingEnd" -> EndMap(s1, Sp(s))
         [] OTHER -> ParseNode(x, PushSt(s1, "FlowMapNoValue"), FALSE, FALSE)

FlowMapValue(x, s0, none) ==
  LET s == Peek(x, s0) IN
  IF Bad(s) THEN s
  ELSE IF none \/ Ty(s) # "Value" THEN Empty(Goto(s, "FlowMap"), Sp(s))
  ELSE LET s1 == Peek(x, Skip(s)) IN
       IF Bad(s1) THEN s1
       ELSE IF Ty(s1) \in {"FlowEntry", "FlowMappingEnd"} THEN Empty(Goto(s1, "FlowMap"), Sp(s))
       ELSE ParseNode(x, PushSt(s1, "FlowMap"), FALSE, FALSE)

FlowSeqEntry(x, s0, first) ==
  LET s == Peek(x, IF first THEN First(x, s0) ELSE s0)
      EndSeq(z) == Skip(Simple(Pop(z), "QE", Sp(z)))
  IN
  IF Bad(s) THEN s
  ELSE IF Ty(s) = "FlowSequenceEnd" THEN EndSeq(s)
  ELSE IF ~first /\ Ty(s) # "FlowEntry" THEN PErr(s, "',' or ']' expected")
  ELSE LET s1 == Peek(x, IF first THEN s ELSE Skip(s)) IN
       IF Bad(s1) THEN s1
       ELSE
       CASE Ty(s1) = "FlowSequenceEnd" -> EndSeq(s1)
         [] Ty(s1) = "Key" -> Skip(Simple(Goto(s1, "FlowPairKey"), "MS", Sp(s1)))
         [] OTHER -> ParseNode(x, PushSt(s1, "FlowSeq"), FALSE, FALSE)

\* a single-pair mapping inside a flow sequence
FlowPairKey(x, s0) ==
  LET s == Peek(x, s0) IN
  IF Bad(s) THEN s
  ELSE IF Ty(s) \in {"Value", "FlowEntry", "FlowSequenceEnd"}
  THEN Empty(Goto(s, "FlowPairValue"), Sp(s))
  ELSE ParseNode(x, PushSt(s, "FlowPairValue"), FALSE, FALSE)
FlowPairValue(x, s0) ==
  LET s == Peek(x, s0) IN
  IF Bad(s) THEN s
  ELSE IF Ty(s) # "Value" THEN Empty(Goto(s, "FlowPairEnd"), Sp(s))
  ELSE LET s1 == Peek(x, Skip(s)) IN
       IF Bad(s1) THEN s1
       ELSE IF Ty(s1) \in {"FlowEntry", "FlowSequenceEnd"} THEN Empty(Goto(s1, "FlowPairEnd"), Sp(s1))
       ELSE ParseNode(x, PushSt(s1, "FlowPairEnd"), FALSE, FALSE)
FlowPairEnd(x, s0) ==
  LET s == Peek(x, s0) IN IF Bad(s) THEN s ELSE Simple(Goto(s, "FlowSeq"), "ME", At0(s.pk[4]))

\* ------------------------------------------------------------- the automaton
StreamStart(x, s0) ==
  LET s == Peek(x, s0) IN
  IF Bad(s) THEN s ELSE Skip(Simple(Goto(s, "ImplicitDocument"), "SS", Sp(s)))

NextEvent(x, s) ==
  LET n == s.st[1] IN
  CASE n = "StreamStart"      -> StreamStart(x, s)
    [] n = "ImplicitDocument" -> DocumentStart(x, s, TRUE)
    [] n = "Document"         -> DocumentStart(x, s, FALSE)
    [] n = "DocumentContent"  -> DocumentContent(x, s)
    [] n = "DocumentEnd"      -> DocumentEnd(x, s)
    [] n = "BlockNode"        -> ParseNode(x, s, TRUE, FALSE)
    [] n = "BlockMapFirst"    -> BlockMapKey(x, s, TRUE)
    [] n = "BlockMapKey"      -> BlockMapKey(x, s, FALSE)
    [] n = "BlockMapValue"    -> BlockMapValue(x, s)
    [] n = "BlockSeqFirst"    -> BlockSeqEntry(x, s, TRUE)
    [] n = "BlockSeq"         -> BlockSeqEntry(x, s, FALSE)
    [] n = "IndentlessEntry"  -> IndentlessEntry(x, s)
    [] n = "FlowMapFirst"     -> FlowMapKey(x, s, TRUE)
    [] n = "FlowMap"          -> FlowMapKey(x, s, FALSE)
    [] n = "FlowMapValue"     -> FlowMapValue(x, s, FALSE)
    [] n = "FlowMapNoValue"   -> FlowMapValue(x, s, TRUE)
    [] n = "FlowSeqFirst"     -> FlowSeqEntry(x, s, TRUE)
    [] n = "FlowSeq"          -> FlowSeqEntry(x, s, FALSE)
    [] n = "FlowPairKey"      -> FlowPairKey(x, s)
    [] n = "FlowPairValue"    -> FlowPairValue(x, s)
    [] n = "FlowPairEnd"      -> FlowPairEnd(x, s)
=============================================================================
