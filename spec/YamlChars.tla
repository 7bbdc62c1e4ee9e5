----------------------------- MODULE YamlChars -----------------------------
(* Byte classes of YAML 1.2 as used by the scanner.  An input is a tuple of
   bytes (the UTF-8 text), positions are 0-based byte offsets; reading past
   the end yields NUL, as every Source of the implementation does. *)
EXTENDS Integers, Sequences

NUL == 0    TAB == 9    LF == 10    CR == 13    SP == 32
BANG == 33  DQ == 34    HASH == 35  PCT == 37   AMP == 38   SQ == 39
STAR == 42  PLUS == 43  COMMA == 44 MINUS == 45 DOT == 46   COLON == 58
LT == 60    GT == 62    QMARK == 63 AT == 64    LBRK == 91  BSL == 92
RBRK == 93  BTICK == 96 LBRC == 123 PIPE == 124 RBRC == 125

B(x, p) == IF p < Len(x) THEN x[p + 1] ELSE NUL
Slice(x, a, b) == SubSeq(x, a + 1, b)         \* bytes of [a, b)

IsBlank(c)       == c = SP \/ c = TAB
IsBreak(c)       == c = LF \/ c = CR
IsBreakz(c)      == c = LF \/ c = CR \/ c = NUL
IsBlankBreak(c)  == c \in {TAB, LF, CR, SP}
IsBlankBreakz(c) == c \in {NUL, TAB, LF, CR, SP}
IsFlow(c)        == c \in {COMMA, LBRK, RBRK, LBRC, RBRC}
IsDigit(c)       == c >= 48 /\ c <= 57
IsHex(c)         == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c)        == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsLetter(c)      == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsAlpha(c)       == IsDigit(c) \/ IsLetter(c) \/ c = 95 \/ c = MINUS
IsWord(c)        == IsDigit(c) \/ IsLetter(c) \/ c = MINUS
IsUri(c)         == IsWord(c) \/ c \in {35, 59, 47, 63, 58, 64, 38, 61, 43, 36, 44, 95, 46,
                                        33, 126, 42, 39, 40, 41, 91, 93, 37}
IsTagChar(c)     == IsUri(c) /\ ~IsFlow(c) /\ c # BANG
IsAnchorChar(c)  == c \notin {NUL, TAB, LF, CR, SP} /\ ~IsFlow(c)

\* The first position at or after p where Stop holds (positions, not bytes), at most the end.
\* (Written with CHOOSE, not as a recursion, so that TLC stays linear on long texts.)
RunTo(x, p, Stop(_)) ==
  IF p >= Len(x) THEN p
  ELSE CHOOSE q \in p..Len(x) : (q = Len(x) \/ Stop(q)) /\ \A r \in p..(q - 1) : ~Stop(r)

\* End of the longest run from p of bytes that are ...
RunAlpha(x, p)     == RunTo(x, p, LAMBDA q : ~IsAlpha(x[q + 1]))
RunAnchor(x, p)    == RunTo(x, p, LAMBDA q : ~IsAnchorChar(x[q + 1]))
RunSpace(x, p)     == RunTo(x, p, LAMBDA q : x[q + 1] # SP)
RunBlank(x, p)     == RunTo(x, p, LAMBDA q : ~IsBlank(x[q + 1]))
RunNonBreakz(x, p) == RunTo(x, p, LAMBDA q : IsBreakz(x[q + 1]))
RunNonBreak(x, p)  == RunTo(x, p, LAMBDA q : IsBreak(x[q + 1]))

IsThree(x, p, c)  == B(x, p) = c /\ B(x, p + 1) = c /\ B(x, p + 2) = c
IsDocStart(x, p)  == IsThree(x, p, MINUS) /\ IsBlankBreakz(B(x, p + 3))
IsDocEnd(x, p)    == IsThree(x, p, DOT) /\ IsBlankBreakz(B(x, p + 3))
IsDocInd(x, p)    == IsDocStart(x, p) \/ IsDocEnd(x, p)

\* May the byte at p continue a plain scalar?
CanPlain(x, p, flow) ==
  LET c == B(x, p) n == B(x, p + 1) IN
  ~(\/ c = COLON /\ (IsBlankBreakz(n) \/ (flow /\ IsFlow(n)))
    \/ flow /\ IsFlow(c))

Repeat(c, n) == [j \in 1..n |-> c]

\* UTF-8 encoding of a code point
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
IsScalarValue(c) == c < 55296 \/ (c > 57343 /\ c < 1114112)
=============================================================================
