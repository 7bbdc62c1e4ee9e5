------------------------------- MODULE Yaml12 -------------------------------
(* The productions of the YAML 1.2 specification (chapters 6 to 9), independent of the scanner
   and parser of the implementation.  A production is an operator from a text x, a position i and
   the grammar's parameters n (indentation) and c (context) to the set of all its matches: pairs
   <<position after the match, events>>.  Contexts: "bo" block-out, "bi" block-in, "fo" flow-out,
   "fi" flow-in, "bk" block-key, "fk" flow-key.  Positions are 1-based.
   Raw events are <<kind, style, value, <<anchor>>, tag>>; Y12(x) is the set of event sequences
   of the stream x (empty: x is not YAML). *)
EXTENDS Integers, Sequences, FiniteSets
(* FALSE: the productions as they stand.  TRUE: with the texts that the implementation reads although
   they are no YAML, in agreement with its own tests or with every other reader of YAML:
   (L1) a line of tabs and spaces is blank also inside plain scalars and after block scalars,
   (L2) a compact collection may follow the ":" of an empty implicit key,
   (L3) the lines of a quoted scalar that is a sequence entry or an explicit key may start at the
        column of its "-" or "?",
   (L4) the name of an unknown directive may have any characters, a version number any size. *)
CONSTANT Lenient

C(x, i)     == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE 0
Eof(x, i)   == i > Len(x)
White(b)    == b = 32 \/ b = 9
Brk(b)      == b = 10 \/ b = 13
Ns(b)       == b # 0 /\ ~White(b) /\ ~Brk(b)
FlowInd(b)  == b \in {44, 91, 93, 123, 125}
Indicator(b) == b \in {45, 63, 58, 44, 91, 93, 123, 125, 35, 38, 42, 33, 124, 62, 39, 34, 37, 64, 96}
BLen(x, i)  == IF C(x, i) = 13 /\ C(x, i + 1) = 10 THEN 2 ELSE IF Brk(C(x, i)) THEN 1 ELSE 0
Sol(x, i)   == i = 1 \/ C(x, i - 1) = 10 \/ (C(x, i - 1) = 13 /\ C(x, i) # 10)

RECURSIVE SkipSp(_, _), SkipWh(_, _), LineEnd(_, _), SkipAnchor(_, _), SkipWord(_, _)
SkipSp(x, i)  == IF C(x, i) = 32 THEN SkipSp(x, i + 1) ELSE i
SkipWh(x, i)  == IF White(C(x, i)) THEN SkipWh(x, i + 1) ELSE i
LineEnd(x, i) == IF Eof(x, i) \/ Brk(C(x, i)) THEN i ELSE LineEnd(x, i + 1)
Spaces(x, i)  == SkipSp(x, i) - i

\* ------------------------------------------------- white space and comments
SepInLine(x, i) == LET j == SkipWh(x, i) IN IF j > i \/ Sol(x, i) THEN {j} ELSE {}

\* ( s-separate-in-line c-nb-comment-text? )? b-comment
SBComment(x, i) ==
  LET j == SkipWh(x, i)
      k == IF C(x, j) = 35 /\ (j > i \/ Sol(x, i)) THEN LineEnd(x, j) ELSE j
  IN IF Eof(x, k) \/ Brk(C(x, k)) THEN {k + BLen(x, k)} ELSE {}

RECURSIVE LComments(_, _)                                  \* l-comment*
LComments(x, i) ==
  IF Eof(x, i) \/ ~Sol(x, i) THEN i
  ELSE LET s == SBComment(x, i) IN IF s = {} THEN i ELSE LComments(x, CHOOSE j \in s : TRUE)

SLComments(x, i) ==
  LET s == SBComment(x, i) IN
  IF s # {} THEN {LComments(x, j) : j \in s} ELSE IF Sol(x, i) THEN {i} ELSE {}

FlowLinePrefix(x, i, n) == IF Spaces(x, i) >= n THEN {SkipWh(x, i + n)} ELSE {}
SeparateLines(x, i, n) == UNION {FlowLinePrefix(x, j, n) : j \in SLComments(x, i)} \cup SepInLine(x, i)
Separate(x, i, n, c) == IF c \in {"bk", "fk"} THEN SepInLine(x, i) ELSE SeparateLines(x, i, n)
SepOpt(x, i, n, c) == {i} \cup Separate(x, i, n, c)
SepInLineOpt(x, i) == {i} \cup SepInLine(x, i)

\* l-empty(n, flow-in): the position after the line, or 0
EmptyFlow(x, i, n, tabs) ==
  LET t == SkipSp(x, i) k == IF tabs THEN SkipWh(x, i) ELSE IF t - i >= n THEN SkipWh(x, i + n) ELSE t IN
  IF Brk(C(x, k)) THEN k + BLen(x, k) ELSE 0
RECURSIVE Empties(_, _, _, _, _)                           \* l-empty*: <<position, line feeds>>
Empties(x, i, n, tabs, v) ==
  LET k == EmptyFlow(x, i, n, tabs) IN IF k = 0 THEN <<i, v>> ELSE Empties(x, k, n, tabs, Append(v, 10))

\* s-flow-folded(n) from the end of a line's content: {<<start of the next line's content, value>>}
FlowFolded(x, i, n, tabs) ==
  LET j == SkipWh(x, i) IN
  IF ~Brk(C(x, j)) THEN {}
  ELSE LET q == Empties(x, j + BLen(x, j), n, tabs, <<>>) IN
       {<<k, IF q[2] = <<>> THEN <<32>> ELSE q[2]>> : k \in FlowLinePrefix(x, q[1], n)}

\* --------------------------------------------------------------- properties
NoP == <<<<>>, <<>> >>
SkipAnchor(x, i) == IF Ns(C(x, i)) /\ ~FlowInd(C(x, i)) THEN SkipAnchor(x, i + 1) ELSE i
Name(x, i) ==                                              \* {<<position, name>>} after & or *
  LET j == SkipAnchor(x, i) IN IF j > i THEN {<<j, SubSeq(x, i, j - 1)>>} ELSE {}

Dig(b)  == b >= 48 /\ b <= 57
Word(b) == Dig(b) \/ (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122) \/ b = 45
Hex(b)  == Dig(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
HexV(b) == IF Dig(b) THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
\* the implementation also takes "_" in tag handles
SkipWord(x, i) == IF Word(C(x, i)) \/ (Lenient /\ C(x, i) = 95) THEN SkipWord(x, i + 1) ELSE i
UriPunct == {35, 59, 47, 63, 58, 64, 38, 61, 43, 36, 44, 95, 46, 33, 126, 42, 39, 40, 41, 91, 93}
\* a run of URI or tag characters with its escapes decoded: <<position, value>>
RECURSIVE Uri(_, _, _, _)
Uri(x, i, tagonly, v) ==
  LET b == C(x, i) IN
  IF b = 37 /\ Hex(C(x, i + 1)) /\ Hex(C(x, i + 2))
  THEN Uri(x, i + 3, tagonly, Append(v, 16 * HexV(C(x, i + 1)) + HexV(C(x, i + 2))))
  ELSE IF Word(b) \/ (b \in UriPunct /\ ~(tagonly /\ (b = 33 \/ FlowInd(b)))) THEN Uri(x, i + 1, tagonly, Append(v, b))
  ELSE <<i, v>>
RECURSIVE Utf8(_, _)                                       \* the bytes of v from j on are UTF-8
Utf8(v, j) ==
  LET b == C(v, j)  Co(k) == C(v, j + k) >= 128 /\ C(v, j + k) < 192 IN
  CASE j > Len(v) -> TRUE
    [] b < 128 -> Utf8(v, j + 1)
    [] b >= 194 /\ b < 224 -> Co(1) /\ Utf8(v, j + 2)
    [] b >= 224 /\ b < 240 -> Co(1) /\ Co(2) /\ ~(b = 224 /\ C(v, j + 1) < 160) /\ ~(b = 237 /\ C(v, j + 1) >= 160) /\ Utf8(v, j + 3)
    [] b >= 240 /\ b < 245 -> Co(1) /\ Co(2) /\ Co(3) /\ ~(b = 240 /\ C(v, j + 1) < 144) /\ ~(b = 244 /\ C(v, j + 1) >= 144) /\ Utf8(v, j + 4)
    [] OTHER -> FALSE
Handle(x, i) ==                                            \* from "!": <<position, handle>>
  LET j == SkipWord(x, i + 1) IN
  IF C(x, j) = 33 THEN <<j + 1, SubSeq(x, i, j)>> ELSE <<i + 1, <<33>> >>
TagProp(x, i) ==
  IF C(x, i) # 33 THEN {}
  ELSE IF C(x, i + 1) = 60
  THEN LET u == Uri(x, i + 2, FALSE, <<>>) IN IF u[2] # <<>> /\ Utf8(u[2], 1) /\ C(x, u[1]) = 62 THEN {<<u[1] + 1, <<"v", u[2]>> >>} ELSE {}
  ELSE LET h == Handle(x, i) u == Uri(x, h[1], TRUE, <<>>) IN
       IF ~Utf8(u[2], 1) THEN {} ELSE IF u[2] # <<>> THEN {<<u[1], <<"s", h[2], u[2]>> >>}
       ELSE IF h[2] = <<33>> THEN {<<i + 1, <<"n">> >>} ELSE {}
AnchorProp(x, i) == IF C(x, i) = 38 THEN Name(x, i + 1) ELSE {}
Props(x, i, n, c) ==
  (UNION {{<<t[1], <<<<>>, t[2]>> >>} \cup {<<a[1], <<<<a[2]>>, t[2]>> >> : a \in UNION {AnchorProp(x, j) : j \in Separate(x, t[1], n, c)}} : t \in TagProp(x, i)})
  \cup
  (UNION {{<<a[1], <<<<a[2]>>, <<>> >> >>} \cup {<<t[1], <<<<a[2]>>, t[2]>> >> : t \in UNION {TagProp(x, j) : j \in Separate(x, a[1], n, c)}} : a \in AnchorProp(x, i)})

Node(kind, style, value, p) == <<kind, style, value, p[1], p[2]>>
Scal(style, value, p) == << Node("SC", style, value, p) >>
E == Scal(0, <<>>, NoP)
Coll(k, p, evs) == << Node(k \o "S", 0, <<>>, p) >> \o evs \o << Node(k \o "E", 0, <<>>, NoP) >>
Ends(S, p, k) == {<<r[1], Coll(k, p, r[2])>> : r \in S}

\* ------------------------------------------------------------- flow scalars
PlainSafe(c, b) == Ns(b) /\ ~(c \in {"fi", "fk"} /\ FlowInd(b))
PlainFirst(x, i, c) ==
  LET b == C(x, i) IN
  Ns(b) /\ (~Indicator(b) \/ (b \in {45, 63, 58} /\ PlainSafe(c, C(x, i + 1))))
PlainChar(x, i, c) ==
  LET b == C(x, i) IN
  IF b = 58 THEN PlainSafe(c, C(x, i + 1))
  ELSE IF b = 35 THEN i > 1 /\ Ns(C(x, i - 1))
  ELSE PlainSafe(c, b)
RECURSIVE PlainLine(_, _, _)
PlainLine(x, i, c) == LET j == SkipWh(x, i) IN IF PlainChar(x, j, c) THEN PlainLine(x, j + 1, c) ELSE i
RECURSIVE PlainLines(_, _, _, _, _)
PlainLines(x, i, n, c, v) ==
  LET f == {r \in FlowFolded(x, i, n, Lenient) : PlainChar(x, r[1], c)} IN
  IF f = {} THEN <<i, v>>
  ELSE LET r == CHOOSE q \in f : TRUE k == PlainLine(x, r[1], c) IN
       PlainLines(x, k, n, c, v \o r[2] \o SubSeq(x, r[1], k - 1))
Plain(x, i, n, c, p) ==
  IF ~PlainFirst(x, i, c) THEN {}
  ELSE LET j == PlainLine(x, i + 1, c)
           r == IF c \in {"fo", "fi"} THEN PlainLines(x, j, n, c, SubSeq(x, i, j - 1)) ELSE <<j, SubSeq(x, i, j - 1)>>
       IN {<<r[1], Scal(0, r[2], p)>>}

Utf(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE HexNum(_, _, _, _)                               \* -1: not k hexadecimal digits
HexNum(x, i, k, v) ==
  IF k = 0 THEN v
  ELSE IF ~Hex(C(x, i)) \/ v > 69631 THEN -1
  ELSE HexNum(x, i + 1, k - 1, 16 * v + HexV(C(x, i)))
Short == << <<48, 0>>, <<97, 7>>, <<98, 8>>, <<116, 9>>, <<9, 9>>, <<110, 10>>, <<118, 11>>, <<102, 12>>, <<114, 13>>, <<101, 27>>,
            <<32, 32>>, <<34, 34>>, <<47, 47>>, <<92, 92>>, <<78, 133>>, <<95, 160>>, <<76, 8232>>, <<80, 8233>> >>
\* the escape at i: {<<position, value>>}
Escape(x, i) ==
  LET b == C(x, i + 1)
      S == {j \in 1..Len(Short) : Short[j][1] = b}
      k == IF b = 120 THEN 2 ELSE IF b = 117 THEN 4 ELSE IF b = 85 THEN 8 ELSE 0
      v == HexNum(x, i + 2, k, 0)
  IN IF S # {} THEN {<<i + 2, Utf(Short[CHOOSE j \in S : TRUE][2])>>}
     ELSE IF k > 0 /\ v >= 0 /\ v < 1114112 /\ ~(v >= 55296 /\ v <= 57343) THEN {<<i + 2 + k, Utf(v)>>} ELSE {}

RECURSIVE Double(_, _, _, _, _, _)                         \* v: value so far, w: white space seen after it
Double(x, i, n, multi, v, w) ==
  LET b == C(x, i) IN
  IF Eof(x, i) THEN {}
  ELSE CASE b = 34 -> {<<i + 1, v \o w>>}
         [] White(b) -> Double(x, i + 1, n, multi, v, Append(w, b))
         [] Brk(b) -> IF ~multi THEN {} ELSE UNION {Double(x, r[1], n, multi, v \o r[2], <<>>) : r \in FlowFolded(x, i, n, FALSE)}
         [] b = 92 /\ Brk(C(x, i + 1)) ->
              IF ~multi THEN {}
              ELSE LET q == Empties(x, i + 1 + BLen(x, i + 1), n, FALSE, <<>>) IN
                   UNION {Double(x, k, n, multi, v \o w \o q[2], <<>>) : k \in FlowLinePrefix(x, q[1], n)}
         [] b = 92 -> UNION {Double(x, r[1], n, multi, v \o w \o r[2], <<>>) : r \in Escape(x, i)}
         [] OTHER -> Double(x, i + 1, n, multi, v \o Append(w, b), <<>>)
RECURSIVE Single(_, _, _, _, _, _)
Single(x, i, n, multi, v, w) ==
  LET b == C(x, i) IN
  IF Eof(x, i) THEN {}
  ELSE CASE b = 39 /\ C(x, i + 1) = 39 -> Single(x, i + 2, n, multi, v \o Append(w, 39), <<>>)
         [] b = 39 -> {<<i + 1, v \o w>>}
         [] White(b) -> Single(x, i + 1, n, multi, v, Append(w, b))
         [] Brk(b) -> IF ~multi THEN {} ELSE UNION {Single(x, r[1], n, multi, v \o r[2], <<>>) : r \in FlowFolded(x, i, n, FALSE)}
         [] OTHER -> Single(x, i + 1, n, multi, v \o Append(w, b), <<>>)

\* --------------------------------------------------------------- flow nodes
InFlow(c) == IF c \in {"fo", "fi"} THEN "fi" ELSE "fk"
Multi(c)  == c \in {"fo", "fi"}

RECURSIVE FlowSeqEntries(_, _, _, _), FlowMapEntries(_, _, _, _), FlowNode(_, _, _, _), Json(_, _, _, _, _)

Alias(x, i) == IF C(x, i) = 42 THEN {<<r[1], << <<"AL", 0, r[2], <<>>, <<>> >> >> >> : r \in Name(x, i + 1)} ELSE {}
Json(x, i, n, c, p) ==
  LET b == C(x, i) IN
  CASE b = 34 -> {<<r[1], Scal(2, r[2], p)>> : r \in Double(x, i + 1, n, Multi(c), <<>>, <<>>)}
    [] b = 39 -> {<<r[1], Scal(1, r[2], p)>> : r \in Single(x, i + 1, n, Multi(c), <<>>, <<>>)}
    [] b = 91 -> LET S == SepOpt(x, i + 1, n, c)
                     R == {<<j, <<>> >> : j \in S} \cup UNION {FlowSeqEntries(x, j, n, InFlow(c)) : j \in S}
                 IN {<<r[1] + 1, Coll("Q", p, r[2])>> : r \in {q \in R : C(x, q[1]) = 93}}
    [] b = 123 -> LET S == SepOpt(x, i + 1, n, c)
                      R == {<<j, <<>> >> : j \in S} \cup UNION {FlowMapEntries(x, j, n, InFlow(c)) : j \in S}
                  IN {<<r[1] + 1, Coll("M", p, r[2])>> : r \in {q \in R : C(x, q[1]) = 125}}
    [] OTHER -> {}

\* properties followed by content: Content(position, properties) is the set of matches of the content
WithProps(x, i, n, c, Content(_, _)) ==
  UNION {UNION {Content(j, r[2]) : j \in Separate(x, r[1], n, c)} : r \in Props(x, i, n, c)}
OnlyProps(x, i, n, c) == {<<r[1], Scal(0, <<>>, r[2])>> : r \in Props(x, i, n, c)}

YamlNode(x, i, n, c) ==                                    \* ns-flow-yaml-node
  Alias(x, i) \cup Plain(x, i, n, c, NoP) \cup OnlyProps(x, i, n, c)
  \cup WithProps(x, i, n, c, LAMBDA j, p : Plain(x, j, n, c, p))
JsonNode(x, i, n, c) ==                                    \* c-flow-json-node
  Json(x, i, n, c, NoP) \cup WithProps(x, i, n, c, LAMBDA j, p : Json(x, j, n, c, p))
FlowNode(x, i, n, c) == YamlNode(x, i, n, c) \cup JsonNode(x, i, n, c)

\* the value after ":" at i: after a YAML key it needs a separation, after a JSON key it does not
SepValue(x, i, n, c) ==
  IF C(x, i) # 58 \/ PlainSafe(c, C(x, i + 1)) THEN {}
  ELSE {<<i + 1, E>>} \cup UNION {FlowNode(x, j, n, c) : j \in Separate(x, i + 1, n, c)}
AdjValue(x, i, n, c) ==
  IF C(x, i) # 58 THEN {}
  ELSE {<<i + 1, E>>} \cup UNION {FlowNode(x, j, n, c) : j \in SepOpt(x, i + 1, n, c)}

Pairs(K, After(_), Value(_)) ==                            \* a key, and its value where one follows
  UNION {UNION {{<<v[1], k[2] \o v[2]>> : v \in Value(j)} : j \in After(k[1])} : k \in K}
ImplicitEntry(x, i, n, c) ==                               \* ns-flow-map-implicit-entry
  LET Y == YamlNode(x, i, n, c) J == JsonNode(x, i, n, c) IN
  {<<k[1], k[2] \o E>> : k \in Y \cup J}
  \cup Pairs(Y, LAMBDA j : SepOpt(x, j, n, c), LAMBDA j : SepValue(x, j, n, c))
  \cup Pairs(J, LAMBDA j : SepOpt(x, j, n, c), LAMBDA j : AdjValue(x, j, n, c))
  \cup {<<v[1], E \o v[2]>> : v \in SepValue(x, i, n, c)}
ExplicitEntry(x, i, n, c) ==                               \* after "?"
  UNION {ImplicitEntry(x, j, n, c) \cup {<<j, E \o E>>} : j \in Separate(x, i + 1, n, c)}
FlowPair(x, i, n, c, Y, J) ==                              \* Y, J: the nodes at i that can be an implicit key
  Ends(Pairs(Y, LAMBDA j : SepInLineOpt(x, j), LAMBDA j : SepValue(x, j, n, c))
       \cup Pairs(J, LAMBDA j : SepInLineOpt(x, j), LAMBDA j : AdjValue(x, j, n, c))
       \cup {<<v[1], E \o v[2]>> : v \in SepValue(x, i, n, c)}
       \cup (IF C(x, i) = 63 THEN ExplicitEntry(x, i, n, c) ELSE {}), NoP, "M")

Entries(x, n, c, R, Rest(_)) ==                            \* after an entry: nothing, a comma, or a comma and more
  UNION {UNION {{<<k, r[2]>>} \cup
                (IF C(x, k) # 44 THEN {}
                 ELSE UNION {{<<m, r[2]>>} \cup {<<q[1], r[2] \o q[2]>> : q \in Rest(m)} : m \in SepOpt(x, k + 1, n, c)})
                : k \in SepOpt(x, r[1], n, c)} : r \in R}
FlowSeqEntries(x, i, n, c) ==
  LET Y == YamlNode(x, i, 0, "fk")
      J == JsonNode(x, i, 0, "fk")
      V == IF c = "fk" THEN Y \cup J ELSE FlowNode(x, i, n, c)
  IN Entries(x, n, c, FlowPair(x, i, n, c, Y, J) \cup V, LAMBDA m : FlowSeqEntries(x, m, n, c))
FlowMapEntries(x, i, n, c) ==
  Entries(x, n, c, ImplicitEntry(x, i, n, c) \cup (IF C(x, i) = 63 THEN ExplicitEntry(x, i, n, c) ELSE {}),
          LAMBDA m : FlowMapEntries(x, m, n, c))

\* ------------------------------------------------------------ block scalars
\* <<position, chomping, indicator>> of a header at i ("|" or ">"), {} if it is none
Header(x, i) ==
  LET a == C(x, i + 1) b == C(x, i + 2)
      Ch(q) == q \in {43, 45}  Di(q) == q >= 49 /\ q <= 57
  IN IF Ch(a) /\ Di(b) THEN {<<i + 3, a, b - 48>>}
     ELSE IF Di(a) /\ Ch(b) THEN {<<i + 3, b, a - 48>>}
     ELSE IF Ch(a) THEN {<<i + 2, a, 0>>}
     ELSE IF Di(a) THEN {<<i + 2, 0, a - 48>>} ELSE {<<i + 1, 0, 0>>}

NoText(x, i) == Eof(x, i) \/ Brk(C(x, i))
RECURSIVE Detect(_, _, _)                                  \* <<first line with text or end, most spaces of the lines before>>
Detect(x, i, m) ==
  LET j == SkipSp(x, i) IN
  IF Eof(x, j) THEN <<i, IF j - i > m THEN j - i ELSE m>>
  ELSE IF Brk(C(x, j)) THEN Detect(x, j + BLen(x, j), IF j - i > m THEN j - i ELSE m)
  ELSE <<i, m>>
\* the lines at indentation d from i: <<position after them, sequence of lines ("" = empty)>>
RECURSIVE Lines(_, _, _, _)
Lines(x, i, d, q) ==
  LET s == Spaces(x, i) IN
  IF Eof(x, i) THEN <<i, q>>
  ELSE IF s >= d /\ ~NoText(x, i + d)
  THEN LET e == LineEnd(x, i + d) IN Lines(x, e + BLen(x, e), d, Append(q, SubSeq(x, i + d, e - 1)))
  ELSE IF Brk(C(x, i + s)) /\ s <= d THEN Lines(x, i + s + BLen(x, i + s), d, Append(q, <<>>))
  ELSE <<i, q>>
RECURSIVE LastText(_, _)
LastText(q, j) == IF j = 0 \/ q[j] # <<>> THEN j ELSE LastText(q, j - 1)
RECURSIVE Joined(_, _, _, _, _)                            \* lines j.. of q up to k; pv: the line of text before, g: empty lines since
Joined(q, j, k, folded, s) ==
  IF j > k THEN s.v
  ELSE IF q[j] = <<>> THEN Joined(q, j + 1, k, folded, [s EXCEPT !.g = Append(@, 10)])
  ELSE LET glue == IF s.pv = <<>> THEN s.g
                   ELSE IF folded /\ ~White(s.pv[1]) /\ ~White(q[j][1]) THEN (IF s.g = <<>> THEN <<32>> ELSE s.g)
                   ELSE Append(s.g, 10)
       IN Joined(q, j + 1, k, folded, [v |-> s.v \o glue \o q[j], g |-> <<>>, pv |-> q[j]])

BlockScalarAt(x, i, n, p) ==
  IF C(x, i) \notin {124, 62} THEN {}
  ELSE UNION {
    LET folded == C(x, i) = 62
        D == Detect(x, b, 0)
        s == Spaces(x, D[1])
        text == ~Eof(x, D[1] + s) /\ s >= n + 1
        d == IF h[3] > 0 THEN (IF n < 0 THEN 0 ELSE n) + h[3]
             ELSE IF text THEN s ELSE IF D[2] > n + 1 THEN D[2] ELSE n + 1
        L == Lines(x, b, d, <<>>)
        k == LastText(L[2], Len(L[2]))
        after == [j \in 1..(Len(L[2]) - k) |-> 10]
        v == Joined(L[2], 1, k, folded, [v |-> <<>>, g |-> <<>>, pv |-> <<>>])
             \o (IF k > 0 /\ h[2] # 45 THEN <<10>> ELSE <<>>) \o (IF h[2] = 43 THEN after ELSE <<>>)
        e == L[1]
        w == IF L[2] = <<>> /\ h[2] = 43 /\ Eof(x, e + Spaces(x, e)) /\ Spaces(x, e) > 0 THEN <<10>> ELSE v
    IN IF h[3] = 0 /\ text /\ D[2] > s THEN {}
       ELSE LET end == IF Lenient \/ (C(x, e + Spaces(x, e)) = 35 /\ Spaces(x, e) < d) THEN LComments(x, e) ELSE e
            IN {<<end, Scal(IF folded THEN 4 ELSE 3, w, p)>>}
    : <<h, b>> \in UNION {{<<g, a>> : a \in SBComment(x, g[1])} : g \in Header(x, i)}}

\* -------------------------------------------------------- block collections
RECURSIVE BlockNode(_, _, _, _, _), SeqEntries(_, _, _), MapEntries(_, _, _)

Quoted(x, i, n, p) == IF C(x, i) \in {34, 39} THEN Json(x, i, n, "fo", p) ELSE {}
FlowInBlock(x, i, n, entry) ==
  LET F(j) == FlowNode(x, j, n + 1, "fo")
      Q(j) == Quoted(x, j, n, NoP) \cup WithProps(x, j, n + 1, "fo", LAMBDA k, p : Quoted(x, k, n, p))
  IN UNION {UNION {{<<m, r[2]>> : m \in SLComments(x, r[1])}
                   : r \in F(j) \cup (IF Lenient /\ entry THEN Q(j) ELSE {})} : j \in Separate(x, i, n + 1, "fo")}
BlockScalar(x, i, n, c) ==
  UNION {BlockScalarAt(x, j, n, NoP) \cup WithProps(x, j, n + 1, c, LAMBDA k, p : BlockScalarAt(x, k, n, p)) : j \in Separate(x, i, n + 1, c)}
BlockSeqAt(x, i, n, p) == LET w == Spaces(x, i) IN IF w < n + 1 THEN {} ELSE Ends(SeqEntries(x, i + w, w), p, "Q")
BlockMapAt(x, i, n, p) == LET w == Spaces(x, i) IN IF w < n + 1 THEN {} ELSE Ends(MapEntries(x, i + w, w), p, "M")
BlockColl(x, i, n, c) ==
  LET S == {<<i, NoP>>} \cup UNION {Props(x, j, n + 1, c) : j \in Separate(x, i, n + 1, c)}
  IN UNION {UNION {BlockSeqAt(x, m, IF c = "bo" THEN n - 1 ELSE n, r[2]) \cup BlockMapAt(x, m, n, r[2]) : m \in SLComments(x, r[1])} : r \in S}
BlockNode(x, i, n, c, entry) == FlowInBlock(x, i, n, entry) \cup BlockScalar(x, i, n, c) \cup BlockColl(x, i, n, c)
EmptyNode(x, i) == {<<m, E>> : m \in SLComments(x, i)}

BlockIndented(x, i, n, c, entry) ==                        \* after "-", "?" or ":"
  LET m == Spaces(x, i) IN
  (IF m = 0 THEN {} ELSE Ends(SeqEntries(x, i + m, n + 1 + m), NoP, "Q") \cup Ends(MapEntries(x, i + m, n + 1 + m), NoP, "M"))
  \cup BlockNode(x, i, n, c, entry) \cup EmptyNode(x, i)

\* entries at column n, the first one at i; the next ones on lines indented by exactly n
More(x, n, R, Rest(_)) ==
  UNION {LET q == IF Sol(x, r[1]) /\ Spaces(x, r[1]) = n /\ ~NoText(x, r[1] + n) THEN Rest(r[1] + n) ELSE {}
         IN IF q = {} THEN {r} ELSE {<<s[1], r[2] \o s[2]>> : s \in q} : r \in R}
Indic(x, i, b) == C(x, i) = b /\ ~Ns(C(x, i + 1))
SeqEntries(x, i, n) ==
  IF ~Indic(x, i, 45) THEN {} ELSE More(x, n, BlockIndented(x, i + 1, n, "bi", TRUE), LAMBDA j : SeqEntries(x, j, n))

ExplicitPair(x, i, n) ==
  IF ~Indic(x, i, 63) THEN {}
  ELSE UNION {LET V == IF Sol(x, k[1]) /\ Spaces(x, k[1]) = n /\ C(x, k[1] + n) = 58 THEN BlockIndented(x, k[1] + n + 1, n, "bo", FALSE) ELSE {}
              IN IF V = {} THEN {<<k[1], k[2] \o E>>} ELSE {<<v[1], k[2] \o v[2]>> : v \in V}
              : k \in BlockIndented(x, i + 1, n, "bo", TRUE)}
ImplicitPair(x, i, n) ==
  LET K == {<<i, E>>} \cup {k \in YamlNode(x, i, 0, "bk") \cup JsonNode(x, i, 0, "bk") : k[1] - i <= 1024} IN
  UNION {UNION {IF C(x, j) # 58 THEN {}
                ELSE {<<v[1], k[2] \o v[2]>> : v \in IF Lenient /\ k[1] = i THEN BlockIndented(x, j + 1, n, "bo", FALSE)
                                                     ELSE BlockNode(x, j + 1, n, "bo", FALSE) \cup EmptyNode(x, j + 1)}
                : j \in (IF k[1] = i THEN {i} ELSE SepInLineOpt(x, k[1]))} : k \in K}
MapEntries(x, i, n) == More(x, n, ExplicitPair(x, i, n) \cup ImplicitPair(x, i, n), LAMBDA j : MapEntries(x, j, n))

\* ------------------------------------------------------------------ streams
Marker(x, i) ==                                            \* "---" (45) or "..." (46) at the start of a line
  IF Sol(x, i) /\ C(x, i) \in {45, 46} /\ C(x, i + 1) = C(x, i) /\ C(x, i + 2) = C(x, i) /\ ~Ns(C(x, i + 3)) THEN C(x, i) ELSE 0
RECURSIVE Until(_, _)                                      \* position of the next marker, or the end
Until(x, i) == IF Eof(x, i) \/ Marker(x, i) # 0 THEN i ELSE Until(x, i + 1)

Whole(x, S) == {r[2] : r \in {q \in S : Eof(x, IF Lenient THEN LComments(x, q[1]) ELSE q[1])}}
\* content of one document on its own text: from position i of d
Content(d, i, explicit) == Whole(d, BlockNode(d, i, -1, "bi", FALSE) \cup (IF explicit THEN EmptyNode(d, i) ELSE {}))

CoreP == <<116,97,103,58,121,97,109,108,46,111,114,103,44,50,48,48,50,58>>      \* tag:yaml.org,2002:
At(q, k) == LET S == {j \in 1..Len(q) : q[j][1] = k} IN IF S = {} THEN <<>> ELSE <<q[CHOOSE j \in S : \A m \in S : m <= j][2]>>
\* <<1, handle, suffix>> or <<>>
TagOf(t, dirs) ==
  CASE t = <<>> -> <<0, <<>>, <<>> >>
    [] t[1] = "v" -> <<1, <<>>, t[2]>>
    [] t[1] = "n" -> <<1, <<>>, <<33>> >>
    [] OTHER -> LET d == At(dirs, t[2]) IN
                IF d # <<>> THEN <<1, d[1], t[3]>>
                ELSE IF t[2] = <<33>> THEN <<1, <<33>>, t[3]>>
                ELSE IF t[2] = <<33, 33>> THEN <<1, CoreP, t[3]>> ELSE <<>>
\* events of one document: anchors numbered from id on, aliases and tags resolved; "bad" if one cannot be
RECURSIVE Resolved(_, _, _, _, _, _)
Resolved(raw, j, dirs, anc, id, out) ==
  IF j > Len(raw) THEN <<"ok", id, out>>
  ELSE LET e == raw[j] IN
       IF e[1] = "AL" THEN LET d == At(anc, e[3]) IN
            IF d = <<>> THEN <<"bad">> ELSE Resolved(raw, j + 1, dirs, anc, id, Append(out, <<"AL", 0, <<>>, d[1], 0, <<>>, <<>> >>))
       ELSE LET t == TagOf(e[5], dirs) IN
            IF t = <<>> THEN <<"bad">>
            ELSE IF e[4] = <<>> THEN Resolved(raw, j + 1, dirs, anc, id, Append(out, <<e[1], e[2], e[3], 0>> \o t))
            ELSE Resolved(raw, j + 1, dirs, Append(anc, <<e[4][1], id>>), id + 1, Append(out, <<e[1], e[2], e[3], id>> \o t))

Plain7(k, s) == <<k, s, <<>>, 0, 0, <<>>, <<>> >>
\* one directive line: {<<position, directive>>}; <<"Y">>, <<"T", handle, prefix>> or <<"R">>
RECURSIVE SkipDig(_, _), SkipNs(_, _)
RECURSIVE Dec(_, _, _, _)                                  \* the number written from i to k - 1, at most 256
Dec(x, i, k, v) == IF i = k \/ v > 255 THEN v ELSE Dec(x, i + 1, k, 10 * v + C(x, i) - 48)
SkipDig(x, i) == IF Dig(C(x, i)) THEN SkipDig(x, i + 1) ELSE i
SkipNs(x, i) == IF Ns(C(x, i)) THEN SkipNs(x, i + 1) ELSE i
Directive(x, i) ==
  LET j == SkipNs(x, i + 1) nm == SubSeq(x, i + 1, j - 1) k == SkipWh(x, j)
      Rest(q, d) == {<<m, d>> : m \in SLComments(x, q)}
  IN CASE nm = <<>> -> {}
       [] nm = <<89, 65, 77, 76>> ->
            LET a == SkipDig(x, k) b == SkipDig(x, a + 1) IN
            IF k > j /\ a > k /\ C(x, a) = 46 /\ b > a + 1 /\ (Lenient \/ (Dec(x, k, a, 0) < 256 /\ Dec(x, a + 1, b, 0) < 256))
            THEN Rest(b, <<"Y">>) ELSE {}
       [] nm = <<84, 65, 71>> ->
            LET h == Handle(x, k) m == SkipWh(x, h[1])
                u == IF C(x, m) = 33 THEN Uri(x, m + 1, FALSE, <<33>>)
                     ELSE LET f == Uri(x, m, TRUE, <<>>) IN IF f[2] = <<>> THEN f ELSE Uri(x, f[1], FALSE, f[2])
            IN IF k > j /\ C(x, k) = 33 /\ m > h[1] /\ u[2] # <<>> /\ Utf8(u[2], 1) THEN Rest(u[1], <<"T", h[2], u[2]>>) ELSE {}
       [] OTHER -> IF Lenient \/ \A m \in 1..Len(nm) : Word(nm[m]) THEN Rest(LineEnd(x, j), <<"R">>) ELSE {}
RECURSIVE Directives(_, _, _)                              \* <<position, directives>> or <<>>
Directives(x, i, q) ==
  IF C(x, i) # 37 \/ ~Sol(x, i) THEN <<i, q>>
  ELSE LET S == Directive(x, i) IN
       IF S = {} THEN <<>> ELSE LET r == CHOOSE s \in S : TRUE IN Directives(x, r[1], Append(q, r[2]))
Handles(q) == LET T == SelectSeq(q, LAMBDA d : d[1] = "T") IN [j \in 1..Len(T) |-> <<T[j][2], T[j][3]>>]
DirsOk(q) ==
  /\ Cardinality({j \in 1..Len(q) : q[j][1] = "Y"}) <= 1
  /\ \A a, b \in 1..Len(q) : a # b /\ q[a][1] = "T" /\ q[b][1] = "T" => q[a][2] # q[b][2]

(* The stream from i on, after the events out: free says whether a bare document or a directive may
   come now (at the start of the stream and after "..."). *)
RECURSIVE Stream(_, _, _, _, _)
OneDoc(x, i, j, explicit, dirs, id, out) ==                \* content from j of the text from i up to the next marker
  LET e == Until(x, j) d == SubSeq(x, i, e - 1) IN
  UNION {LET r == Resolved(raw, 1, dirs, <<>>, id, <<>>) IN
         IF r[1] = "bad" THEN {}
         ELSE Stream(x, e, FALSE, r[2], out \o <<Plain7("DS", IF explicit THEN 1 ELSE 0)>> \o r[3] \o <<Plain7("DE", 0)>>)
         : raw \in Content(d, j - i + 1, explicit)}
Stream(x, i0, free, id, out) ==
  LET i == LComments(x, i0) IN
  IF Eof(x, i) THEN {out \o <<Plain7("SE", 0)>>}
  ELSE CASE Marker(x, i) = 46 -> UNION {Stream(x, j, TRUE, id, out) : j \in SLComments(x, i + 3)}
         [] Marker(x, i) = 45 -> OneDoc(x, i, i + 3, TRUE, <<>>, id, out)
         [] ~free -> {}
         [] C(x, i) = 37 /\ Sol(x, i) ->
              LET D == Directives(x, i, <<>>) IN
              IF D = <<>> THEN {} ELSE IF ~DirsOk(D[2]) \/ Marker(x, D[1]) # 45 THEN {}
              ELSE OneDoc(x, D[1], D[1] + 3, TRUE, Handles(D[2]), id, out)
         [] OTHER -> OneDoc(x, i0, 1 + i0 - 1, FALSE, <<>>, id, out)
Y12(x) == Stream(x, 1, TRUE, 1, <<Plain7("SS", 0)>>)
=============================================================================
