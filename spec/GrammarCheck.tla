---------------------------- MODULE GrammarCheck ----------------------------
(* The two specifications of the language against each other: for every text made of at most Depth
   pieces of an alphabet, the events of the scanner and parser machine (YamlScanner, YamlParser) are
   those of the productions (Yaml12), and the machine fails on the other texts, up to the leniencies
   listed there (Agree).  Further invariants of the machine itself, on the same texts:
     Shape      its events form a stream of the event grammar, a prefix of one if it fails,
     Order      their spans agree with the text and are ordered,
     Ids        anchor ids count upwards, aliases name earlier ones,
     AnyBreak   CR and CRLF instead of LF change nothing but offsets,
     Bounded    it produces at most eight events per byte. *)
EXTENDS YamlParser, EventGrammar, FiniteSets, TLC, IOUtils
Strict == INSTANCE Yaml12 WITH Lenient <- FALSE
Loose  == INSTANCE Yaml12 WITH Lenient <- TRUE

Depth == atoi(IOEnv.DEPTH)
Alphabet ==                                 \* the pieces
  CASE IOEnv.PIECES = "block"   -> {<<97>>, <<45>>, <<58>>, <<SP>>, <<LF>>, <<LF, SP>>, <<63>>}
    [] IOEnv.PIECES = "nested"  -> {<<97>>, <<45, SP>>, <<63, SP>>, <<97, 58, SP>>, <<58, SP>>, <<LF>>, <<LF, SP, SP>>, <<LF, SP>>}
    [] IOEnv.PIECES = "flow"    -> {<<97>>, <<91>>, <<93>>, <<123>>, <<125>>, <<COMMA>>, <<58, SP>>, <<63, SP>>}
    [] IOEnv.PIECES = "flowml"  -> {<<97>>, <<91>>, <<93>>, <<COMMA>>, <<58>>, <<SP>>, <<LF>>, <<DQ>>}
    [] IOEnv.PIECES = "dquoted" -> {<<97>>, <<DQ>>, <<BSL>>, <<SP>>, <<LF>>, <<TAB>>, <<58>>}
    [] IOEnv.PIECES = "squoted" -> {<<97>>, <<SQ>>, <<SP>>, <<LF>>, <<HASH>>, <<58, SP>>, <<45, SP>>}
    [] IOEnv.PIECES = "plain"   -> {<<97>>, <<SP>>, <<TAB>>, <<LF>>, <<LF, SP>>, <<HASH>>, <<58>>, <<45>>}
    [] IOEnv.PIECES = "scalar"  -> {<<PIPE>>, <<GT>>, <<45>>, <<PLUS>>, <<49>>, <<50>>, <<LF>>, <<LF, SP>>, <<97>>}
    [] IOEnv.PIECES = "folded"  -> {<<97>>, <<SP>>, <<TAB>>, <<LF>>, <<LF, SP>>, <<HASH>>}
    [] IOEnv.PIECES = "docs"    -> {<<45, 45, 45>>, <<46, 46, 46>>, <<LF>>, <<SP>>, <<97>>, <<PCT, 89>>, <<HASH>>, <<58, SP>>}
    [] IOEnv.PIECES = "dirs"    -> {<<PCT>>, <<89, 65, 77, 76, SP, 49, DOT, 50>>, <<84, 65, 71, SP>>, <<BANG>>, <<LF>>, <<SP>>, <<97>>, <<LF, 45, 45, 45, SP>>, <<LF, 46, 46, 46, LF>>}
    [] IOEnv.PIECES = "props"   -> {<<AMP, 97>>, <<STAR, 97>>, <<BANG>>, <<98>>, <<SP>>, <<LF>>, <<58, SP>>, <<45, SP>>}
    [] IOEnv.PIECES = "tags"    -> {<<BANG>>, <<97>>, <<LT>>, <<GT>>, <<PCT>>, <<52, 49>>, <<99, 51>>, <<SP>>, <<58, SP>>}
    [] IOEnv.PIECES = "comment" -> {<<HASH>>, <<SP>>, <<LF>>, <<TAB>>, <<97>>, <<58>>, <<45, SP>>, <<91>>, <<93>>}
    [] IOEnv.PIECES = "ftags"   -> {<<BANG, LT, 97, GT>>, <<AMP, 97>>, <<STAR, 97>>, <<BANG>>, <<91>>, <<93>>, <<COMMA>>, <<COLON>>, <<SP>>}
    [] IOEnv.PIECES = "keys"    -> {<<97>>, <<DQ>>, <<123>>, <<125>>, <<COLON>>, <<58, SP>>, <<LF, SP>>, <<63, SP>>, <<COMMA>>}
    [] IOEnv.PIECES = "mixed"   -> {<<45, SP>>, <<63, SP>>, <<58, SP>>, <<97>>, <<LF>>, <<LF, SP>>, <<91>>, <<93>>, <<DQ>>, <<PIPE>>, <<SP, HASH>>, <<AMP, 97, SP>>}
    [] IOEnv.PIECES = "tabs"    -> {<<TAB>>, <<SP>>, <<LF>>, <<97>>, <<45>>, <<63>>, <<COLON>>, <<HASH>>}
    [] IOEnv.PIECES = "inner"   -> {<<PIPE, LF>>, <<GT, LF>>, <<97>>, <<LF>>, <<LF, SP>>, <<LF, SP, SP>>, <<45, SP>>, <<97, 58, SP>>, <<HASH>>}
Prefix ==                                   \* all texts start with it
  CASE IOEnv.PIECES = "folded" -> (IF IOEnv.START = "" THEN <<GT, LF>> ELSE <<45, SP, PIPE, 49, LF>>)
    [] IOEnv.PIECES = "dquoted" -> <<DQ>>
    [] OTHER -> <<>>

RECURSIVE RunFrom(_, _, _)
RunFrom(x, s, acc) ==                       \* <<events, error or <<>> >>
  IF s.st = <<"End">> THEN <<acc, <<>> >>
  ELSE LET n == NextEvent(x, s) IN
       IF Bad(n) THEN <<acc, n.err>> ELSE RunFrom(x, n, Append(acc, n.ev))
Machine(x) == RunFrom(x, Init0(FALSE), <<>>)
NoSpans(q) == [j \in 1..Len(q) |-> SubSeq(q[j], 1, 7)]

VARIABLES x, d, r
Init == x = Prefix /\ d = 0 /\ r = Machine(Prefix)
Next == d < Depth /\ \E c \in Alphabet : x' = x \o c /\ d' = d + 1 /\ r' = Machine(x')
Spec == Init /\ [][Next]_<<x, d, r>>
View == x

Agree ==
  LET G == Strict!Y12(x) e == NoSpans(r[1]) IN
  IF G # {} THEN r[2] = <<>> /\ G = {e}
  ELSE r[2] # <<>> \/ e \in Loose!Y12(x)

RECURSIVE Fed(_, _, _)
Fed(q, j, g) == IF j > Len(q) THEN g ELSE Fed(q, j + 1, GStep(g, q[j][1]))
Shape == LET g == Fed(r[1], 1, GInit) IN g.ph # "bad" /\ (r[2] = <<>> <=> g.ph = "end")

LineStarts == {0} \cup {p \in 1..Len(x) : x[p] = LF \/ (x[p] = CR /\ B(x, p) # LF)}
TrueMark(m) ==
  LET before == {q \in LineStarts : q <= m[1]} top == CHOOSE q \in before : \A z \in before : z <= q IN
  \/ m[1] <= Len(x) /\ m[2] = Cardinality(before) /\ m[3] = m[1] - top + 1
  \/ m = <<Len(x), Cardinality(LineStarts) + 1, 1>>
Order ==
  LET SpanFrom(j) == SubSeq(r[1][j][8], 1, 3) SpanTo(j) == SubSeq(r[1][j][8], 4, 6)
      Void(j) == r[1][j][1] = "SC" /\ r[1][j][2] = 0 /\ r[1][j][3] = <<>> IN
  /\ \A j \in 1..Len(r[1]) : TrueMark(SpanFrom(j)) /\ TrueMark(SpanTo(j)) /\ SpanFrom(j)[1] <= SpanTo(j)[1]
  /\ \A j \in 1..Len(r[1]) : Void(j) \/ \A h \in 1..(j - 1) : SpanFrom(h)[1] <= SpanFrom(j)[1]
  /\ r[2] # <<>> => TrueMark(r[2][2])
Ids == \A j \in 1..Len(r[1]) :
         LET before == {r[1][h][4] : h \in 1..(j - 1)} id == r[1][j][4] IN
         IF r[1][j][1] = "AL" THEN id > 0 /\ id \in before
         ELSE id = 0 \/ (id > 0 /\ \A h \in before : h < id)
RECURSIVE Broken(_, _, _)
Broken(y, j, br) == IF j > Len(y) THEN <<>> ELSE (IF y[j] = LF THEN br ELSE <<y[j]>>) \o Broken(y, j + 1, br)
AnyBreak ==
  LET c == Machine(Broken(x, 1, <<CR>>)) w == Machine(Broken(x, 1, <<CR, LF>>)) IN
  /\ c = r
  /\ NoSpans(w[1]) = NoSpans(r[1]) /\ (w[2] = <<>> <=> r[2] = <<>>)
Bounded == Len(r[1]) <= 8 * Len(x) + 8
=============================================================================
