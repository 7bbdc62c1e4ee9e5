---------------------------- MODULE YamlScanner ----------------------------
(* The scanner as a state machine over byte positions.  Its state is part of
   the record s (created by Init in YamlParser):
     p, ln, ls   offset of the next byte, its line, offset where that line starts
     lw          only whitespace seen so far on this line
     T, tp       token queue, number of tokens already handed out
     K           one simple-key candidate per flow level: [ok, req, n, m]
     I, i        stack of enclosing indents <<indent, ends with BlockEnd>>, current indent
                 (columns are 1-based; indent 0 means no block collection)
     M           per flow collection: "M" a mapping; in a sequence "P" a single-pair
                 mapping may start, "I" one is open, "E" one with an explicit key is open
     ok          a simple key may start here
     adj         offset at which a ':' may directly follow a JSON-like key
     fl          flow nesting level
     beg, fin    stream start / stream end produced
     err         <<>> or <<what, mark>>
   A token is <<type, a, b, start, end>>; a mark is <<offset, line, column>>. *)
EXTENDS YamlChars

Col(s) == s.p - s.ls + 1
Mk(s)  == <<s.p, s.ln, s.p - s.ls + 1>>
MCol(m) == m[3]
MLine(m) == m[2]
Tok(ty, a, b, sm, em) == <<ty, a, b, sm, em>>
NoMark == <<0, 0, 0>>

Bad(s) == s.err # <<>>
Fail(s, what, m) == [s EXCEPT !.err = <<what, m>>]
Adv(s, n) == [s EXCEPT !.p = @ + n]
AdvNB(s, n) == [s EXCEPT !.p = @ + n, !.lw = FALSE]
Push(s, t) == [s EXCEPT !.T = Append(@, t)]
NoSimple(s) == [s EXCEPT !.ok = FALSE]

\* One line break (LF, CR or CRLF).
BreakLen(x, p) == IF B(x, p) = CR /\ B(x, p + 1) = LF THEN 2 ELSE 1
Break(x, s) ==
  IF IsBreak(B(x, s.p))
  THEN LET q == s.p + BreakLen(x, s.p)
       IN [s EXCEPT !.p = q, !.ln = @ + 1, !.ls = q, !.lw = TRUE]
  ELSE s

(* Spaces (and tabs) up to the end of the line and a comment there:
   <<offset, tabs seen, spaces seen, error>> *)
RECURSIVE WsEolR(_, _, _, _, _)
WsEolR(x, p, tabs, any, ws) ==
  LET c == B(x, p) IN
  IF c = SP THEN WsEolR(x, RunSpace(x, p), tabs, any, TRUE)
  ELSE IF c = TAB /\ tabs THEN WsEolR(x, p + 1, tabs, TRUE, ws)
  ELSE IF c = HASH THEN IF any \/ ws THEN <<RunNonBreakz(x, p), any, ws, FALSE>>
                        ELSE <<p, any, ws, TRUE>>
  ELSE <<p, any, ws, FALSE>>
WsEol(x, s) ==                              \* with tabs, nothing before
  LET r == WsEolR(x, s.p, TRUE, FALSE, FALSE)
      s1 == [s EXCEPT !.p = r[1]]
  IN IF r[4] THEN Fail(s1, "comment without space", Mk(s1)) ELSE s1

RECURSIVE ToNext(_, _)
ToNext(x, s) ==
  LET c == B(x, s.p) IN
  IF c = TAB /\ s.I # <<>> /\ s.lw /\ (Col(s) < s.i \/ (Col(s) = s.i /\ s.I[Len(s.I)][2]))
  THEN LET s1 == WsEol(x, s) IN
       IF Bad(s1) THEN s1
       ELSE IF ~IsBreakz(B(x, s1.p)) THEN Fail(s1, "tab indentation", Mk(s1))
       ELSE ToNext(x, s1)
  ELSE IF c = SP THEN ToNext(x, [s EXCEPT !.p = RunSpace(x, @)])
  ELSE IF c = TAB THEN ToNext(x, Adv(IF s.lw /\ s.fl = 0 THEN NoSimple(s) ELSE s, 1))
  ELSE IF IsBreak(c) THEN LET s1 == Break(x, s) IN
       ToNext(x, IF s.fl = 0 THEN [s1 EXCEPT !.ok = TRUE] ELSE s1)
  ELSE IF c = HASH THEN ToNext(x, [s EXCEPT !.p = RunNonBreakz(x, s.p)])
  ELSE s

\* ---------------------------------------------------------------- simple keys
NoKey(m) == [ok |-> FALSE, req |-> FALSE, n |-> 0, m |-> m]

StaleKey(s, k) ==
  k.ok /\ s.fl = 0 /\ (MLine(k.m) < s.ln \/ k.m[1] + 1024 < s.p)
Stale(s) ==
  IF \A j \in DOMAIN s.K : ~StaleKey(s, s.K[j]) THEN s
  ELSE IF \E j \in DOMAIN s.K : StaleKey(s, s.K[j]) /\ s.K[j].req
       THEN Fail(s, "simple key expects ':'", Mk(s))
  ELSE [s EXCEPT !.K = [j \in DOMAIN @ |-> IF StaleKey(s, @[j]) THEN [@[j] EXCEPT !.ok = FALSE]
                                           ELSE @[j]]]
RemoveKey(s) ==
  LET k == s.K[Len(s.K)] IN
  IF k.ok /\ k.req THEN Fail(s, "simple key expected", Mk(s))
  ELSE [s EXCEPT !.K[Len(s.K)].ok = FALSE]
SaveKey(s) ==
  IF ~s.ok THEN s
  ELSE [s EXCEPT !.K[Len(s.K)] =
         [ok |-> TRUE,
          req |-> s.fl = 0 /\ s.i = Col(s) /\ s.I # <<>> /\ s.I[Len(s.I)][2],
          n |-> s.tp + Len(s.T), m |-> Mk(s)]]

\* ---------------------------------------------------------------- indentation
Front(q) == SubSeq(q, 1, Len(q) - 1)
Top(q) == q[Len(q)]

RECURSIVE Unroll(_, _)
Unroll(s, col) ==
  IF s.fl > 0 \/ s.i <= col THEN s
  ELSE LET t == Top(s.I)
           s1 == [s EXCEPT !.I = Front(@), !.i = t[1]]
       IN Unroll(IF t[2] THEN Push(s1, Tok("BlockEnd", <<>>, <<>>, Mk(s), Mk(s))) ELSE s1, col)

RECURSIVE UnrollNonBlock(_)
UnrollNonBlock(s) ==
  IF s.I = <<>> \/ Top(s.I)[2] THEN s
  ELSE UnrollNonBlock([s EXCEPT !.i = Top(s.I)[1], !.I = Front(@)])

Insert(s, n, t) ==
  [s EXCEPT !.T = SubSeq(@, 1, n) \o <<t>> \o SubSeq(@, n + 1, Len(@))]

Roll(s, col, n, ty, m) ==                   \* n < 0: at the end of the queue
  IF s.fl > 0 THEN s
  ELSE LET s1 == IF s.i <= col /\ s.I # <<>> /\ ~Top(s.I)[2]
                 THEN [s EXCEPT !.i = Top(s.I)[1], !.I = Front(@)] ELSE s
       IN IF s1.i < col
          THEN LET s2 == [s1 EXCEPT !.I = Append(@, <<s1.i, TRUE>>), !.i = col]
                   t == Tok(ty, <<>>, <<>>, m, m)
               IN IF n >= 0 THEN Insert(s2, n - s.tp, t) ELSE Push(s2, t)
          ELSE s1
RollOne(s) ==
  IF s.fl = 0 /\ s.I # <<>> /\ Top(s.I)[2]
  THEN [s EXCEPT !.I = Append(@, <<s.i, FALSE>>), !.i = @ + 1] ELSE s

\* ---------------------------------------------------------------- plain scalars
PlainRun(x, p, flow) ==
  RunTo(x, p, LAMBDA q : IsBlankBreakz(x[q + 1]) \/ ~CanPlain(x, q, flow))

Breaks(n) == Repeat(LF, n)
\* l: loop state [p, ln, ls, lw, ws, lb, tb, str, em, st], st = "" while running
RECURSIVE PlainSpace(_, _, _)
PlainSpace(x, ind, l) ==                    \* whitespace and breaks between words
  LET c == B(x, l.p) IN
  IF IsBlank(c)
  THEN IF ~l.lw THEN LET q == RunBlank(x, l.p) IN
            PlainSpace(x, ind, [l EXCEPT !.p = q, !.ws = @ \o Slice(x, l.p, q)])
       ELSE IF l.p - l.ls + 1 < ind /\ c = TAB
       THEN LET q == RunBlank(x, l.p) IN
            IF ~IsBreakz(B(x, q)) /\ B(x, q) # HASH THEN [l EXCEPT !.p = q, !.st = "tab"]
            ELSE PlainSpace(x, ind, [l EXCEPT !.p = q])
       ELSE PlainSpace(x, ind, [l EXCEPT !.p = IF c = SP THEN RunSpace(x, @) ELSE @ + 1])
  ELSE IF IsBreak(c)
  THEN LET q == l.p + BreakLen(x, l.p)
           l1 == [l EXCEPT !.p = q, !.ln = @ + 1, !.ls = q, !.lw = TRUE]
       IN PlainSpace(x, ind, IF l.lw THEN [l1 EXCEPT !.tb = @ + 1]
                             ELSE [l1 EXCEPT !.ws = <<>>, !.lb = 1])
  ELSE l

\* line folding: what replaces the whitespace before the next word
Fold(l) == IF l.lw THEN IF l.lb = 0 THEN Breaks(l.tb)
                        ELSE IF l.tb = 0 THEN <<SP>> ELSE Breaks(l.tb)
           ELSE l.ws

RECURSIVE PlainLoop(_, _, _, _)
PlainLoop(x, flow, ind, l) ==
  LET b == B(x, l.p) col == l.p - l.ls + 1 IN
  IF b = HASH \/ (col = 1 /\ IsDocInd(x, l.p)) THEN [l EXCEPT !.st = "done"]
  ELSE IF flow /\ l.str = <<>> /\ b \in {MINUS, QMARK} /\ IsFlow(B(x, l.p + 1)) THEN [l EXCEPT !.st = "dash"]
  ELSE
  LET l1 == IF ~IsBlankBreakz(b) /\ CanPlain(x, l.p, flow)
            THEN LET q == PlainRun(x, l.p + 1, flow) IN
                 [l EXCEPT !.p = q, !.str = @ \o Fold(l) \o Slice(x, l.p, q),
                           !.lw = FALSE, !.ws = <<>>, !.lb = 0, !.tb = 0,
                           !.em = <<q, l.ln, q - l.ls + 1>>]
            ELSE l
  IN IF ~IsBlankBreak(B(x, l1.p)) THEN [l1 EXCEPT !.st = "done"]
     ELSE LET l2 == PlainSpace(x, ind, l1) IN
          IF l2.st # "" THEN l2
          ELSE IF l2.p - l2.ls + 1 < ind THEN [l2 EXCEPT !.st = "done"]
          ELSE PlainLoop(x, flow, ind, l2)

ScanPlain(x, s0) ==
  LET flow == s0.fl > 0
      s == IF flow THEN s0 ELSE UnrollNonBlock(s0)
      ind == IF ~flow THEN s.i + 1 ELSE IF s.i > 1 THEN s.i ELSE 1
      m == Mk(s)
  IN IF flow /\ Col(s) < ind THEN Fail(s, "invalid indentation in flow construct", m)
     ELSE
     LET l == PlainLoop(x, flow, ind,
                [p |-> s.p, ln |-> s.ln, ls |-> s.ls, lw |-> s.lw, ws |-> <<>>, lb |-> 0,
                 tb |-> 0, str |-> <<>>, em |-> m, st |-> ""])
         s1 == [s EXCEPT !.p = l.p, !.ln = l.ln, !.ls = l.ls, !.lw = l.lw,
                         !.ok = @ \/ l.lw]
     IN IF l.st = "tab" THEN Fail(s1, "tab in plain scalar", m)
        ELSE IF l.st = "dash" THEN Fail(s1, "'-' or '?' before flow indicator", Mk(s1))
        ELSE IF l.str = <<>> THEN Fail(s1, "empty plain scalar", m)
        ELSE Push(s1, Tok("Scalar", 0, l.str, m, l.em))
FetchPlain(x, s) == ScanPlain(x, NoSimple(SaveKey(s)))

\* ---------------------------------------------------------------- quoted scalars
EscCode(c) ==                               \* single-character escapes
  CASE c = 48 -> 0    [] c = 97 -> 7    [] c = 98 -> 8    [] c = 116 -> 9
    [] c = TAB -> 9   [] c = 110 -> 10  [] c = 118 -> 11  [] c = 102 -> 12
    [] c = 114 -> 13  [] c = 101 -> 27  [] c = SP -> 32   [] c = DQ -> 34
    [] c = 47 -> 47   [] c = BSL -> 92  [] c = 78 -> 133  [] c = 95 -> 160
    [] c = 76 -> 8232 [] c = 80 -> 8233 [] OTHER -> -1
EscLen(c) == CASE c = 120 -> 2 [] c = 117 -> 4 [] c = 85 -> 8 [] OTHER -> 0
RECURSIVE HexAt(_, _, _, _)                 \* value of n hex digits at p, -1 if not hex
HexAt(x, p, n, acc) ==
  IF n = 0 THEN acc
  ELSE IF ~IsHex(B(x, p)) THEN -1
  ELSE HexAt(x, p + 1, n - 1, IF acc > 1114111 THEN acc ELSE acc * 16 + HexVal(B(x, p)))
\* Escape at p (the backslash): <<length, code point>>, code point -1 if invalid
Escape(x, p) ==
  LET c == B(x, p + 1) n == EscLen(c) IN
  IF n = 0 THEN <<2, EscCode(c)>>
  ELSE LET v == HexAt(x, p + 2, n, 0)
       IN <<2 + n, IF v >= 0 /\ IsScalarValue(v) THEN v ELSE -1>>

QuoteRun(x, p, q) ==                        \* run of bytes that stand for themselves
  RunTo(x, p, LAMBDA z : IsBlankBreakz(x[z + 1]) \/ x[z + 1] = q \/ (q = DQ /\ x[z + 1] = BSL))

\* Non-blank characters; sets ld on an escaped line break, st = "esc" on a bad escape.
RECURSIVE QuoteText(_, _, _)
QuoteText(x, q, l) ==
  LET c == B(x, l.p) IN
  IF IsBlankBreakz(c) THEN l
  ELSE IF c = q THEN IF q = SQ /\ B(x, l.p + 1) = SQ
                     THEN QuoteText(x, q, [l EXCEPT !.p = @ + 2, !.str = Append(@, SQ)])
                     ELSE l
  ELSE IF q = DQ /\ c = BSL
  THEN IF IsBreak(B(x, l.p + 1))
       THEN LET r == l.p + 1 + BreakLen(x, l.p + 1) IN
            [l EXCEPT !.p = r, !.ln = @ + 1, !.ls = r, !.ld = TRUE]
       ELSE LET e == Escape(x, l.p) IN
            IF e[2] < 0 THEN [l EXCEPT !.st = "esc"]
            ELSE QuoteText(x, q, [l EXCEPT !.p = @ + e[1], !.str = @ \o Utf8(e[2])])
  ELSE LET r == QuoteRun(x, l.p + 1, q) IN
       QuoteText(x, q, [l EXCEPT !.p = r, !.str = @ \o Slice(x, l.p, r)])

RECURSIVE QuoteSpace(_, _, _)
QuoteSpace(x, ind, l) ==
  LET c == B(x, l.p) IN
  IF IsBlank(c)
  THEN IF l.ld THEN IF c = TAB /\ l.p - l.ls + 1 < ind THEN [l EXCEPT !.st = "tab"]
                    ELSE QuoteSpace(x, ind, [l EXCEPT !.p = IF c = SP THEN RunSpace(x, @) ELSE @ + 1])
       ELSE LET q == RunBlank(x, l.p) IN
            QuoteSpace(x, ind, [l EXCEPT !.p = q, !.ws = @ \o Slice(x, l.p, q)])
  ELSE IF IsBreak(c)
  THEN LET q == l.p + BreakLen(x, l.p)
           l1 == [l EXCEPT !.p = q, !.ln = @ + 1, !.ls = q]
       IN QuoteSpace(x, ind, IF l.ld THEN [l1 EXCEPT !.tb = @ + 1]
                             ELSE [l1 EXCEPT !.ws = <<>>, !.lb = 1, !.ld = TRUE])
  ELSE l

QuoteFold(l) == IF l.ld THEN IF l.lb = 0 THEN Breaks(l.tb)
                             ELSE IF l.tb = 0 THEN <<SP>> ELSE Breaks(l.tb)
                ELSE l.ws

RECURSIVE QuoteLoop(_, _, _, _)
QuoteLoop(x, q, ind, l) ==
  LET col == l.p - l.ls + 1 IN
  IF col = 1 /\ IsDocInd(x, l.p) THEN [l EXCEPT !.st = "docind"]
  ELSE IF B(x, l.p) = NUL THEN [l EXCEPT !.st = "eof"]
  ELSE IF col < ind THEN [l EXCEPT !.st = "indent"]
  ELSE
  LET l1 == QuoteText(x, q, [l EXCEPT !.ld = FALSE]) IN
  IF l1.st # "" THEN l1
  ELSE IF l1.ld /\ l1.p - l1.ls + 1 < ind /\ ~IsBlankBreak(B(x, l1.p))
  THEN [l1 EXCEPT !.st = "indent"]
  ELSE IF B(x, l1.p) = q THEN [l1 EXCEPT !.st = "done"]
  ELSE LET l2 == QuoteSpace(x, ind, l1) IN
       IF l2.st # "" THEN l2
       ELSE QuoteLoop(x, q, ind,
              [l2 EXCEPT !.str = @ \o QuoteFold(l2), !.ws = <<>>, !.lb = 0, !.tb = 0])

ScanQuoted(x, s, q) ==
  LET m == Mk(s)
      l == QuoteLoop(x, q, s.i,
             [p |-> s.p + 1, ln |-> s.ln, ls |-> s.ls, ld |-> FALSE, ws |-> <<>>, lb |-> 0,
              tb |-> 0, str |-> <<>>, st |-> ""])
      s1 == [s EXCEPT !.p = l.p, !.ln = l.ln, !.ls = l.ls, !.lw = FALSE]
  IN IF l.st = "tab" THEN Fail(s1, "tab as indentation in quoted scalar", Mk(s1))
     ELSE IF l.st # "done" THEN Fail(s1, "quoted scalar: " \o l.st, m)
     ELSE
     LET s2 == WsEol(x, AdvNB(s1, 1)) c == B(x, s2.p) IN
     IF Bad(s2) THEN s2
     ELSE IF \/ s2.fl > 0 /\ c \in {COMMA, RBRC, RBRK}
             \/ IsBreakz(c)
             \/ c = COLON /\ (s2.fl > 0 \/ MLine(m) = s2.ln)
          THEN [s2 EXCEPT !.err = <<>>, !.tok0 = Tok("Scalar", IF q = SQ THEN 1 ELSE 2, l.str, m, Mk(s2))]
     ELSE Fail(s2, "content after quoted scalar", Mk(s2))

FetchQuoted(x, s, q) ==
  LET s1 == ScanQuoted(x, NoSimple(SaveKey(s)), q) IN
  IF Bad(s1) THEN s1
  ELSE LET s2 == ToNext(x, [s1 EXCEPT !.tok0 = <<>>]) IN
       IF Bad(s2) THEN s2
       ELSE Push([s2 EXCEPT !.adj = s2.p], s1.tok0)

\* ---------------------------------------------------------------- block scalars
\* Header after the indicator: <<offset, chomp ("", "+", "-"), increment (-1: zero)>>
BlockHeader(x, p) ==
  LET Ch(c) == IF c = PLUS THEN "+" ELSE IF c = MINUS THEN "-" ELSE ""
      a == B(x, p) b == B(x, p + 1)
      Num(c) == IF c = 48 THEN -1 ELSE c - 48
  IN IF Ch(a) # "" THEN IF IsDigit(b) THEN <<p + 2, Ch(a), Num(b)>> ELSE <<p + 1, Ch(a), 0>>
     ELSE IF IsDigit(a) THEN IF Ch(b) # "" THEN <<p + 2, Ch(b), Num(a)>> ELSE <<p + 1, "", Num(a)>>
     ELSE <<p, "", 0>>

RunSpaces(x, p, ls, ind) ==                 \* spaces from p up to column ind
  LET q == RunSpace(x, p) IN IF q - ls + 1 <= ind THEN q ELSE IF p - ls + 1 >= ind THEN p ELSE ls + ind - 1

\* Blank lines before content: l = [p, ln, ls, tb], mx the largest column reached
RECURSIVE BlockIndentAuto(_, _, _)
BlockIndentAuto(x, l, mx) ==
  LET q == RunSpaces(x, l.p, l.ls, 1000000)
      mx1 == IF q - l.ls + 1 > mx THEN q - l.ls + 1 ELSE mx
  IN IF IsBreak(B(x, q))
     THEN LET r == q + BreakLen(x, q) IN
          BlockIndentAuto(x, [l EXCEPT !.p = r, !.ln = @ + 1, !.ls = r, !.tb = @ + 1], mx1)
     ELSE <<[l EXCEPT !.p = q], mx1>>
RECURSIVE BlockIndent(_, _, _)
BlockIndent(x, l, ind) ==
  LET q == RunSpaces(x, l.p, l.ls, ind) IN
  IF IsBreak(B(x, q))
  THEN LET r == q + BreakLen(x, q) IN
       BlockIndent(x, [l EXCEPT !.p = r, !.ln = @ + 1, !.ls = r, !.tb = @ + 1], ind)
  ELSE [l EXCEPT !.p = q]

\* Content lines: l has also lb (break after the last line, 0/1), lead (that line
\* started with a blank), str
RECURSIVE BlockLoop(_, _, _, _)
BlockLoop(x, lit, ind, l) ==
  IF l.p - l.ls + 1 # ind \/ l.p >= Len(x) \/ (ind = 1 /\ IsDocInd(x, l.p)) THEN l
  ELSE
  LET blank == IsBlank(B(x, l.p))
      join == IF ~lit /\ l.lb = 1 /\ ~l.lead /\ ~blank
              THEN IF l.tb = 0 THEN <<SP>> ELSE Breaks(l.tb)
              ELSE Breaks(l.lb + l.tb)
      q == RunNonBreak(x, l.p)
      l1 == [l EXCEPT !.p = q, !.str = @ \o join \o Slice(x, l.p, q), !.lb = 0, !.tb = 0,
                      !.lead = blank]
  IN IF q >= Len(x) THEN l1
     ELSE LET r == q + BreakLen(x, q) IN
          BlockLoop(x, lit, ind,
            BlockIndent(x, [l1 EXCEPT !.p = r, !.ln = @ + 1, !.ls = r, !.lb = 1], ind))

ScanBlock(x, s0, lit) ==
  LET m == Mk(s0)
      style == IF lit THEN 3 ELSE 4
      h == BlockHeader(x, s0.p + 1)
      s == UnrollNonBlock([s0 EXCEPT !.p = h[1], !.lw = FALSE])
      w == WsEol(x, s)
  IN IF h[3] < 0 THEN Fail(s, "indentation indicator 0", m)
     ELSE IF Bad(w) THEN w
     ELSE IF ~IsBreakz(B(x, w.p)) THEN Fail(w, "content after block scalar header", m)
     ELSE
     LET hb == IsBreak(B(x, w.p))           \* the header ends in a break
         s1 == Break(x, w)
         l0 == [p |-> s1.p, ln |-> s1.ln, ls |-> s1.ls, tb |-> 0, lb |-> 0, lead |-> FALSE,
                str |-> <<>>]
         au == BlockIndentAuto(x, l0, 0)
         ind == IF h[3] > 0 THEN IF s1.i >= 1 THEN s1.i + h[3] ELSE h[3] + 1
                ELSE IF au[2] > s1.i + 1 THEN au[2] ELSE s1.i + 1
         l1 == IF h[3] > 0 THEN BlockIndent(x, l0, ind) ELSE au[1]
         At(l) == [s1 EXCEPT !.p = l.p, !.ln = l.ln, !.ls = l.ls, !.lw = l.ln > s.ln]
         s2 == At(l1)
         ends == (Col(s2) = 1 /\ IsDocInd(x, s2.p)) \/ (h[3] > 0 /\ B(x, s2.p) = HASH)
     IN IF B(x, s1.p) = TAB /\ s1.i > 0 THEN Fail(s1, "tab at the start of a block scalar", m)
        ELSE IF l1.p >= Len(x)
        THEN Push(s2, Tok("Scalar", style,
               IF h[2] # "+" \/ l1.ln = MLine(m) THEN <<>>
               ELSE IF l1.tb = 0 /\ Col(s2) > 1 THEN Breaks(IF hb THEN 1 ELSE 0)
               ELSE Breaks(l1.tb), m, Mk(s2)))
        ELSE IF Col(s2) < ind /\ Col(s2) > s2.i /\ ~ends
        THEN Fail(s2, "wrongly indented line in block scalar", Mk(s2))
        ELSE
        LET l2 == BlockLoop(x, lit, ind, l1)
            s3 == At(l2)
            open == l2.p >= Len(x) /\ Col(s3) > ind    \* last line has no break
            tail == IF h[2] = "-" THEN <<>>
                    ELSE Breaks(l2.lb + (IF open THEN 1 ELSE 0)
                                + (IF h[2] = "+" THEN l2.tb ELSE 0))
        IN Push(s3, Tok("Scalar", style, l2.str \o tail, Mk(s2), Mk(s3)))
FetchBlock(x, s, lit) == ScanBlock(x, [SaveKey(s) EXCEPT !.ok = TRUE], lit)

\* ---------------------------------------------------------------- anchors, tags, directives
FetchAnchor(x, s0, alias) ==
  LET s == NoSimple(SaveKey(s0))
      q == RunAnchor(x, s.p + 1)
      s1 == [s EXCEPT !.p = q, !.lw = FALSE]
  IN IF q = s.p + 1 THEN Fail(s1, "empty anchor name", Mk(s))
     ELSE IF ~alias /\ B(x, q) \in {LBRK, LBRC} THEN Fail(s1, "content after anchor", Mk(s))
     ELSE Push(s1, Tok(IF alias THEN "Alias" ELSE "Anchor", Slice(x, s.p + 1, q), <<>>, Mk(s), Mk(s1)))

\* A run of %-escapes making up one character: <<offset, bytes>>, bytes = <<>> if invalid
PctByte(x, p) ==
  IF B(x, p) = PCT /\ IsHex(B(x, p + 1)) /\ IsHex(B(x, p + 2))
  THEN HexVal(B(x, p + 1)) * 16 + HexVal(B(x, p + 2)) ELSE -1
UriChar(x, p) ==
  LET b0 == PctByte(x, p)
      w == IF b0 < 0 THEN 0 ELSE IF b0 < 128 THEN 1 ELSE IF b0 >= 192 /\ b0 < 224 THEN 2
           ELSE IF b0 >= 224 /\ b0 < 240 THEN 3 ELSE IF b0 >= 240 /\ b0 < 248 THEN 4 ELSE 0
      T(j) == PctByte(x, p + 3 * j)
      trail == \A j \in 1..(w - 1) : T(j) >= 128 /\ T(j) < 192
      code == CASE w = 1 -> b0
                [] w = 2 -> (b0 - 192) * 64 + (T(1) - 128)
                [] w = 3 -> (b0 - 224) * 4096 + (T(1) - 128) * 64 + (T(2) - 128)
                [] w = 4 -> (b0 - 240) * 262144 + (T(1) - 128) * 4096 + (T(2) - 128) * 64 + (T(3) - 128)
                [] OTHER -> -1
  IN IF w = 0 \/ ~trail THEN <<p, <<>> >>
     ELSE IF ~IsScalarValue(code) \/ Len(Utf8(code)) # w THEN <<p, <<>> >>
     ELSE <<p + 3 * w, Utf8(code)>>
\* Run of tag (uri = FALSE) or uri characters: <<offset, bytes, count, valid>>
RECURSIVE TagText(_, _, _, _, _)
TagText(x, uri, p, acc, n) ==
  LET c == B(x, p) IN
  IF ~(IF uri THEN IsUri(c) ELSE IsTagChar(c)) THEN <<p, acc, n, TRUE>>
  ELSE IF c = PCT
  THEN LET u == UriChar(x, p) IN
       IF u[2] = <<>> THEN <<p, acc, n, FALSE>> ELSE TagText(x, uri, u[1], acc \o u[2], n + 1)
  ELSE LET q == RunTo(x, p, LAMBDA z : x[z + 1] = PCT \/ ~(IF uri THEN IsUri(x[z + 1]) ELSE IsTagChar(x[z + 1])))
       IN TagText(x, uri, q, acc \o Slice(x, p, q), n + q - p)

ScanTag(x, s) ==
  LET m == Mk(s)
      p0 == s.p
      Done(p, handle, suffix) ==
        LET s1 == [s EXCEPT !.p = p, !.lw = FALSE] c == B(x, p) IN
        IF \/ IsBlankBreakz(c) \/ (s.fl > 0 /\ c \in {COMMA, RBRK, RBRC})
           \/ c = COLON /\ (IsBlankBreakz(B(x, p + 1)) \/ (s.fl > 0 /\ IsFlow(B(x, p + 1))))
        THEN Push(s1, Tok("Tag", handle, suffix, m, Mk(s1)))
        ELSE Fail(s1, "content after tag", m)
      BadTag == Fail(s, "invalid tag", m)
  IN IF B(x, p0 + 1) = LT
     THEN LET t == TagText(x, TRUE, p0 + 2, <<>>, 0) IN       \* verbatim
          IF ~t[4] \/ t[3] = 0 \/ B(x, t[1]) # GT THEN BadTag ELSE Done(t[1] + 1, <<>>, t[2])
     ELSE LET q == RunAlpha(x, p0 + 1) IN
          IF B(x, q) = BANG                                   \* named or secondary handle
          THEN LET t == TagText(x, FALSE, q + 1, <<>>, 0) IN
               IF ~t[4] \/ t[3] = 0 THEN BadTag
               ELSE Done(t[1], Slice(x, p0, q + 1), t[2])
          ELSE LET t == TagText(x, FALSE, q, Slice(x, p0 + 1, q), 0) IN   \* primary handle
               IF ~t[4] THEN BadTag
               ELSE IF t[2] = <<>> THEN Done(t[1], <<>>, <<BANG>>)        \* non-specific
               ELSE Done(t[1], <<BANG>>, t[2])
FetchTag(x, s) == ScanTag(x, NoSimple(SaveKey(s)))

\* Version number: <<offset, valid>>
RECURSIVE VersionNo(_, _, _)
VersionNo(x, p, v) ==                       \* v = -1 before the first digit
  LET c == B(x, p) IN
  IF ~IsDigit(c) THEN <<p, v >= 0>>
  ELSE LET w == (IF v < 0 THEN 0 ELSE v) * 10 + (c - 48) IN
       IF w > 255 THEN <<p, FALSE>> ELSE VersionNo(x, p + 1, w)

FetchDirective(x, s0) ==
  LET s == RemoveKey(Unroll(s0, 0))
      m == Mk(s)
      q == RunAlpha(x, s.p + 1)
      name == Slice(x, s.p + 1, q)
      At(p) == [s EXCEPT !.p = p, !.ok = FALSE, !.lw = FALSE]
      End(p, t) ==                          \* only a comment may follow
        LET w == WsEol(x, At(p)) IN
        IF Bad(w) THEN w
        ELSE IF ~IsBreak(B(x, w.p)) THEN Fail(w, "content after directive", m)
        ELSE Push(Break(x, w), Tok(t[1], t[2], t[3], m, Mk(At(p))))
  IN IF Bad(s) THEN s
     ELSE IF q = s.p + 1 \/ ~IsBlankBreak(B(x, q)) THEN Fail(s, "directive name", Mk(At(s.p + 1)))
     ELSE IF name = <<89, 65, 77, 76>>      \* YAML
     THEN LET a == VersionNo(x, RunBlank(x, q), -1) IN
          IF ~a[2] \/ B(x, a[1]) # DOT THEN Fail(s, "version", m)
          ELSE LET b == VersionNo(x, a[1] + 1, -1) IN
               IF ~b[2] THEN Fail(s, "version", m) ELSE End(b[1], <<"Version", <<>>, <<>> >>)
     ELSE IF name = <<84, 65, 71>>          \* TAG
     THEN LET h0 == RunBlank(x, q)
              h1 == RunAlpha(x, h0 + 1)
              h2 == IF B(x, h1) = BANG THEN h1 + 1 ELSE h1
              p0 == RunBlank(x, h2)
              lead == IF B(x, p0) = BANG THEN <<p0 + 1, <<BANG>>, 1, TRUE>>
                      ELSE IF ~IsTagChar(B(x, p0)) THEN <<p0, <<>>, 0, FALSE>>
                      ELSE <<p0, <<>>, 0, TRUE>>
              t == TagText(x, TRUE, lead[1], lead[2], 0)
          IN IF B(x, h0) # BANG \/ (h2 = h1 /\ h1 # h0 + 1) THEN Fail(s, "tag handle", m)
             ELSE IF p0 = h2 THEN Fail(s, "tag prefix", m)
             ELSE IF ~lead[4] \/ ~t[4] \/ ~IsBlankBreak(B(x, t[1])) THEN Fail(s, "tag prefix", m)
             ELSE End(t[1], <<"TagDir", Slice(x, h0, h2), t[2]>>)
     ELSE LET e == RunNonBreakz(x, q) IN End(e, <<"TagDir", <<>>, <<>> >>)   \* reserved

\* ---------------------------------------------------------------- structural indicators
EndImplicit(s, m) ==
  IF s.M = <<>> THEN s
  ELSE CASE Top(s.M) = "I" -> Push([s EXCEPT !.M[Len(s.M)] = "P"],
                                   Tok("FlowMappingEnd", <<>>, <<>>, m, Mk(s)))
         [] Top(s.M) = "E" -> [s EXCEPT !.M[Len(s.M)] = "P"]
         [] OTHER -> s

FetchFlowStart(x, s0, map) ==
  LET s1 == RollOne(SaveKey(s0))
      s2 == [s1 EXCEPT !.K = Append(@, NoKey(NoMark)), !.fl = @ + 1, !.ok = TRUE,
                       !.M = Append(@, IF map THEN "M" ELSE "P")]
      s3 == WsEol(x, AdvNB(s2, 1))
  IN IF Bad(s3) THEN s3
     ELSE Push(s3, Tok(IF map THEN "FlowMappingStart" ELSE "FlowSequenceStart", <<>>, <<>>,
                       Mk(s0), Mk(s3)))
FetchFlowEnd(x, s0, map) ==
  LET s == RemoveKey(s0) IN
  IF Bad(s) THEN s
  ELSE
  LET s1 == IF s.fl > 0 THEN [s EXCEPT !.fl = @ - 1, !.K = Front(@)] ELSE s
      s2 == [s1 EXCEPT !.ok = FALSE]
      e == EndImplicit(s2, Mk(s2))
      s3 == [e EXCEPT !.M = IF @ = <<>> THEN @ ELSE Front(@)]
      s4 == WsEol(x, AdvNB(s3, 1))
      s5 == IF s4.fl = 0 \/ Bad(s4) THEN s4 ELSE ToNext(x, s4)
  IN IF Bad(s5) THEN s5
     ELSE Push(IF s5.fl > 0 THEN [s5 EXCEPT !.adj = s5.p] ELSE s5,
               Tok(IF map THEN "FlowMappingEnd" ELSE "FlowSequenceEnd", <<>>, <<>>, Mk(s0), Mk(s4)))
FetchFlowEntry(x, s0) ==
  LET s == RemoveKey(s0) IN
  IF Bad(s) THEN s
  ELSE LET s1 == EndImplicit([s EXCEPT !.ok = TRUE], Mk(s))
           s2 == WsEol(x, AdvNB(s1, 1))
       IN IF Bad(s2) THEN s2 ELSE Push(s2, Tok("FlowEntry", <<>>, <<>>, Mk(s0), Mk(s2)))

FetchBlockEntry(x, s) ==
  LET m == Mk(s) IN
  IF s.fl > 0 THEN Fail(s, "'-' in flow", m)
  ELSE IF ~s.ok THEN Fail(s, "'-' not allowed here", m)
  ELSE IF s.T # <<>> /\ Top(s.T)[1] \in {"Anchor", "Tag"} /\ Col(s) = 1
          /\ MCol(Top(s.T)[4]) = 1 /\ s.i > 0
       THEN Fail(s, "'-' not allowed here", m)
  ELSE
  LET s1 == Roll(AdvNB(s, 1), MCol(m), -1, "BlockSequenceStart", m)
      r == WsEolR(x, s1.p, TRUE, FALSE, FALSE)
      s2 == [s1 EXCEPT !.p = r[1]]
      c == B(x, s2.p)
  IN IF r[4] THEN Fail(s2, "comment without space", Mk(s2))
     ELSE
     LET s3 == RemoveKey(IF IsBreak(c) \/ IsFlow(c) THEN RollOne(s2) ELSE s2) IN
     IF Bad(s3) THEN s3
     ELSE Push([s3 EXCEPT !.ok = ~r[2]], Tok("BlockEntry", <<>>, <<>>, m, Mk(s3)))

\* Whitespace, breaks and comments after '?'
RECURSIVE KeySpace(_, _, _)
KeySpace(x, s, need) ==
  LET c == B(x, s.p) IN
  IF c = SP THEN KeySpace(x, [s EXCEPT !.p = RunSpace(x, @)], FALSE)
  ELSE IF c = TAB /\ s.lw /\ (Col(s) < s.i \/ (Col(s) = s.i /\ s.I[Len(s.I)][2]))
  THEN LET s1 == WsEol(x, s) IN
       IF Bad(s1) THEN s1
       ELSE IF ~IsBreakz(B(x, s1.p)) THEN Fail(s1, "tab after '?'", Mk(s1))
       ELSE KeySpace(x, s1, FALSE)
  ELSE IF c = TAB THEN KeySpace(x, Adv(NoSimple(s), 1), FALSE)
  ELSE IF IsBreak(c) THEN LET s1 == Break(x, s) IN
       KeySpace(x, IF s.fl = 0 THEN [s1 EXCEPT !.ok = TRUE] ELSE s1, FALSE)
  ELSE IF c = HASH THEN KeySpace(x, [s EXCEPT !.p = RunNonBreakz(x, s.p)], need)
  ELSE IF need /\ s.p < Len(x) THEN Fail(s, "whitespace expected after '?'", Mk(s))
  ELSE s
FetchKey(x, s0) ==
  LET m == Mk(s0) IN
  IF s0.fl = 0 /\ ~s0.ok THEN Fail(s0, "key not allowed here", m)
  ELSE
  LET s1 == RemoveKey(IF s0.fl = 0 THEN Roll(s0, MCol(m), -1, "BlockMappingStart", m)
                      ELSE IF s0.M # <<>> /\ Top(s0.M) = "P" THEN [s0 EXCEPT !.M[Len(s0.M)] = "E"]
                      ELSE s0)
  IN IF Bad(s1) THEN s1
     ELSE LET s2 == KeySpace(x, AdvNB([s1 EXCEPT !.ok = s1.fl = 0], 1), TRUE) IN
          IF Bad(s2) THEN s2
          ELSE Push(s2, Tok("Key", <<>>, <<>>, m, Mk(s2)))

FetchValue(x, s0) ==
  LET k == Top(s0.K)
      m == Mk(s0)
      imp == s0.M # <<>> /\ Top(s0.M) = "P" \* single-pair mapping in a flow sequence
      s1 == AdvNB(IF imp THEN [s0 EXCEPT !.M[Len(s0.M)] = "I"] ELSE s0, 1)
      r == WsEolR(x, s1.p, TRUE, FALSE, FALSE)
      s2 == [s1 EXCEPT !.p = r[1]]
      MS == Tok("FlowMappingStart", <<>>, <<>>, k.m, k.m)
      V(s) == Push(s, Tok("Value", <<>>, <<>>, m, m))
  IN IF r[4] THEN Fail(s2, "comment without space", Mk(s2))
     ELSE IF k.ok
     THEN IF imp /\ MLine(k.m) < MLine(m) THEN Fail(s2, "':' on another line", m)
          ELSE LET s3 == Insert(s2, k.n - s2.tp, Tok("Key", <<>>, <<>>, k.m, k.m))
                   s4 == IF imp THEN Insert(s3, k.n - s3.tp, MS) ELSE s3
                   s5 == RollOne(Roll(s4, MCol(k.m), k.n, "BlockMappingStart", k.m))
               IN V([s5 EXCEPT !.K[Len(s5.K)].ok = FALSE, !.ok = FALSE])
     ELSE LET s3 == IF imp THEN Push(s2, Tok("FlowMappingStart", <<>>, <<>>, m, m)) ELSE s2 IN
          IF s3.fl = 0 /\ ~s3.ok THEN Fail(s3, "value not allowed here", m)
          ELSE LET s4 == RollOne(IF s3.fl = 0 THEN Roll(s3, MCol(m), -1, "BlockMappingStart", m)
                                 ELSE s3)
               IN V([s4 EXCEPT !.ok = s4.fl = 0 /\ ~r[2]])

FetchFlowValue(x, s) ==
  IF s.p # s.adj /\ B(x, s.p + 1) \in {LBRK, LBRC}
  THEN Fail(s, "':' before a flow collection", Mk(s)) ELSE FetchValue(x, s)

FetchDocInd(x, s0, ty) ==
  LET s1 == RemoveKey(Unroll(s0, 0)) IN
  IF Bad(s1) THEN s1
  ELSE LET s2 == AdvNB([s1 EXCEPT !.ok = FALSE], 3)
       IN Push(s2, Tok(ty, <<>>, <<>>, Mk(s1), Mk(s2)))
FetchDocEnd(x, s0) ==
  LET s1 == FetchDocInd(x, s0, "DocumentEnd") IN
  IF Bad(s1) THEN s1
  ELSE LET s2 == WsEol(x, s1) IN
       IF Bad(s2) \/ IsBreakz(B(x, s2.p)) THEN s2
       ELSE Fail(s2, "content after document end marker", Mk(s2))

FetchStreamEnd(s) ==
  LET s1 == IF Col(s) # 1 THEN [s EXCEPT !.ls = s.p, !.ln = @ + 1] ELSE s IN
  IF \E j \in DOMAIN s1.K : s1.K[j].ok /\ s1.K[j].req THEN Fail(s1, "simple key expected", Mk(s1))
  ELSE LET s2 == Unroll([s1 EXCEPT !.K = [j \in DOMAIN @ |-> [@[j] EXCEPT !.ok = FALSE]]], 0)
       IN Push([s2 EXCEPT !.ok = FALSE], Tok("StreamEnd", <<>>, <<>>, Mk(s2), Mk(s2)))

FetchMain(x, s) ==
  LET c == B(x, s.p) n == B(x, s.p + 1) IN
  CASE c = LBRK -> FetchFlowStart(x, s, FALSE)
    [] c = LBRC -> FetchFlowStart(x, s, TRUE)
    [] c = RBRK -> FetchFlowEnd(x, s, FALSE)
    [] c = RBRC -> FetchFlowEnd(x, s, TRUE)
    [] c = COMMA -> FetchFlowEntry(x, s)
    [] c = MINUS /\ IsBlankBreakz(n) -> FetchBlockEntry(x, s)
    [] c = QMARK /\ IsBlankBreakz(n) -> FetchKey(x, s)
    [] c = COLON /\ IsBlankBreakz(n) -> FetchValue(x, s)
    [] c = COLON /\ ~IsBlankBreakz(n) /\ s.fl > 0 /\ (IsFlow(n) \/ s.p = s.adj) -> FetchFlowValue(x, s)
    [] c = STAR -> FetchAnchor(x, s, TRUE)
    [] c = AMP -> FetchAnchor(x, s, FALSE)
    [] c = BANG -> FetchTag(x, s)
    [] c = PIPE /\ s.fl = 0 -> FetchBlock(x, s, TRUE)
    [] c = GT /\ s.fl = 0 -> FetchBlock(x, s, FALSE)
    [] c = SQ \/ c = DQ -> FetchQuoted(x, s, c)
    [] c \in {PCT, AT, BTICK, PIPE, GT} -> Fail(s, "unexpected character", Mk(s))
    [] OTHER -> FetchPlain(x, s)

FetchNext(x, s0) ==
  IF ~s0.beg
  THEN [s0 EXCEPT !.beg = TRUE, !.ok = TRUE, !.i = 0, !.K = Append(@, NoKey(NoMark)),
                  !.T = Append(@, Tok("StreamStart", <<>>, <<>>, Mk(s0), Mk(s0)))]
  ELSE
  LET s1 == ToNext(x, s0) IN IF Bad(s1) THEN s1 ELSE
  LET s2 == Stale(s1) IN IF Bad(s2) THEN s2 ELSE
  LET s == Unroll(s2, Col(s2)) IN
  IF s.p >= Len(x) THEN FetchStreamEnd(s)
  ELSE IF Col(s) = 1 /\ B(x, s.p) = PCT THEN FetchDirective(x, s)
  ELSE IF Col(s) = 1 /\ IsDocStart(x, s.p) THEN FetchDocInd(x, s, "DocumentStart")
  ELSE IF Col(s) = 1 /\ IsDocEnd(x, s.p) THEN FetchDocEnd(x, s)
  ELSE IF Col(s) < s.i THEN Fail(s, "invalid indentation", Mk(s))
  ELSE FetchMain(x, s)

\* The queue holds enough tokens: none of them may still turn out to be a key.
RECURSIVE FetchMore(_, _)
FetchMore(x, s) ==
  IF s.T = <<>> THEN LET s1 == FetchNext(x, s) IN IF Bad(s1) THEN s1 ELSE FetchMore(x, s1)
  ELSE LET s1 == Stale(s) IN
       IF Bad(s1) THEN s1
       ELSE IF \E j \in DOMAIN s1.K : s1.K[j].ok /\ s1.K[j].n = s1.tp
       THEN LET s2 == FetchNext(x, s1) IN IF Bad(s2) THEN s2 ELSE FetchMore(x, s2)
       ELSE s1

\* Hand out the next token in s.tok
NextToken(x, s) ==
  IF s.fin THEN Fail(s, "unexpected eof", Mk(s))
  ELSE LET s1 == FetchMore(x, s) IN
       IF Bad(s1) THEN s1
       ELSE LET t == Head(s1.T) IN
            [s1 EXCEPT !.tok = t, !.T = Tail(@), !.tp = @ + 1, !.fin = t[1] = "StreamEnd"]
=============================================================================
