----------------------------- MODULE CoreSchema -----------------------------
(* The YAML 1.2 core schema: what a scalar's text denotes.  Values are
     <<"null">>  <<"bool", 0|1>>  <<"int", neg, digits>>  <<"str", bytes>>
     <<"float", neg, digits, exponent>>  (0.d1d2d3... * 10^exponent; digits without leading or
         trailing zeros, <<>> for zero)   <<"inf", neg>>   <<"nan">>   <<"bad">>
   with decimal digits as sequences of 0..9, the most significant first.  Integers are those of
   64 bits: a decimal one beyond them is a float, a hexadecimal or octal one a string. *)
EXTENDS YamlChars, SequencesExt

T(b) == b \* (a readable marker for literal texts)
Zero(d) == \A j \in 1..Len(d) : d[j] = 0
FirstNZ(d) == CHOOSE j \in 1..Len(d) : d[j] # 0 /\ \A k \in 1..(j - 1) : d[k] = 0
LastNZ(d)  == CHOOSE j \in 1..Len(d) : d[j] # 0 /\ \A k \in (j + 1)..Len(d) : d[k] = 0
StripLead(d) == IF Zero(d) THEN <<>> ELSE SubSeq(d, FirstNZ(d), Len(d))
Strip(d)     == IF Zero(d) THEN <<>> ELSE SubSeq(d, FirstNZ(d), LastNZ(d))

\* magnitude comparison of digit sequences without leading zeros
RECURSIVE LexLe(_, _, _)
LexLe(a, b, j) == IF j > Len(a) THEN TRUE ELSE IF a[j] # b[j] THEN a[j] < b[j] ELSE LexLe(a, b, j + 1)
Le(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b, 1))

MaxI64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MinI64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
Fits(neg, mag) == Le(mag, IF neg = 1 THEN MinI64 ELSE MaxI64)
IntVal(neg, mag) == IF mag = <<>> THEN <<"int", 0, <<0>> >> ELSE <<"int", neg, mag>>

\* digits of n * m + c, base 10, n without leading zeros
RECURSIVE MulAdd(_, _, _, _)
MulAdd(d, m, c, j) ==          \* from the last digit; returns the digits, maybe with a long head
  IF j = 0 THEN (IF c = 0 THEN <<>> ELSE IF c < 10 THEN <<c>> ELSE <<c \div 10, c % 10>>)
  ELSE LET v == d[j] * m + c IN Append(MulAdd(d, m, v \div 10, j - 1), v % 10)
Horner(ds, base) == FoldLeft(LAMBDA acc, x : MulAdd(acc, base, x, Len(acc)), <<>>, ds)

\* --------------------------------------------------------------- recognisers
Num(b)    == b - 48
AllDigits(v, a, b) == b >= a /\ \A j \in a..b : IsDigit(v[j])
Digits(v, a, b) == [j \in 1..(b - a + 1) |-> Num(v[a + j - 1])]
Signed(v) == Len(v) > 0 /\ v[1] \in {PLUS, MINUS}
NegOf(v)  == IF Len(v) > 0 /\ v[1] = MINUS THEN 1 ELSE 0
Body(v)   == IF Signed(v) THEN 2 ELSE 1                \* first position after the sign

IsDec(v) == AllDigits(v, Body(v), Len(v))
IsHexI(v) == Len(v) > 2 /\ v[1] = 48 /\ v[2] = 120 /\ \A j \in 3..Len(v) : IsHex(v[j])
IsOctI(v) == Len(v) > 2 /\ v[1] = 48 /\ v[2] = 111 /\ \A j \in 3..Len(v) : v[j] \in 48..55

\* [-+]? ( \. [0-9]+ | [0-9]+ ( \. [0-9]* )? ) ( [eE] [-+]? [0-9]+ )?
ExpAt(v) == IF \E j \in 1..Len(v) : v[j] \in {69, 101}
            THEN CHOOSE j \in 1..Len(v) : v[j] \in {69, 101} /\ \A k \in 1..(j - 1) : v[k] \notin {69, 101}
            ELSE Len(v) + 1
DotAt(v, e) == IF \E j \in 1..(e - 1) : v[j] = DOT
               THEN CHOOSE j \in 1..(e - 1) : v[j] = DOT /\ \A k \in 1..(j - 1) : v[k] # DOT
               ELSE e
IsFloatText(v) ==
  LET e == ExpAt(v) b == Body(v) d == DotAt(v, e)
      whole == d > b   frac == d + 1 < e
      x == IF e + 1 <= Len(v) /\ v[e + 1] \in {PLUS, MINUS} THEN e + 2 ELSE e + 1
  IN /\ (e <= Len(v) => AllDigits(v, x, Len(v)))
     /\ (whole => AllDigits(v, b, d - 1))
     /\ (d < e /\ frac => AllDigits(v, d + 1, e - 1))
     /\ whole \/ (d < e /\ frac)
     /\ b <= e - 1

\* small numbers from digits; anything beyond 5 digits is "huge"
RECURSIVE ToInt(_)
ToInt(d) == IF d = <<>> THEN 0 ELSE ToInt(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)]
FloatVal(v) ==
  LET e == ExpAt(v) b == Body(v) d == DotAt(v, e)
      w == IF d > b THEN Digits(v, b, d - 1) ELSE <<>>
      f == IF d + 1 < e THEN Digits(v, d + 1, e - 1) ELSE <<>>
      all == w \o f
      eneg == e + 1 <= Len(v) /\ v[e + 1] = MINUS
      x == IF e + 1 <= Len(v) /\ v[e + 1] \in {PLUS, MINUS} THEN e + 2 ELSE e + 1
      ed == IF e <= Len(v) THEN StripLead(Digits(v, x, Len(v))) ELSE <<>>
      ex == IF Len(ed) > 5 THEN 99999 ELSE ToInt(ed)
      dig == Strip(all)
      lead == IF Zero(all) THEN 0 ELSE FirstNZ(all) - 1
      exp == Len(w) - lead + (IF eneg THEN -ex ELSE ex)
  IN IF dig = <<>> THEN <<"float", NegOf(v), <<>>, 0>>
     ELSE IF exp > 309 THEN <<"inf", NegOf(v)>>
     ELSE IF exp < -330 THEN <<"float", NegOf(v), <<>>, 0>>
     ELSE <<"float", NegOf(v), dig, exp>>

Null == { <<>>, <<126>>, <<110,117,108,108>>, <<78,117,108,108>>, <<78,85,76,76>> }
True == { <<116,114,117,101>>, <<84,114,117,101>>, <<84,82,85,69>> }
False == { <<102,97,108,115,101>>, <<70,97,108,115,101>>, <<70,65,76,83,69>> }
InfTail == { <<46,105,110,102>>, <<46,73,110,102>>, <<46,73,78,70>> }
NaN == { <<46,110,97,110>>, <<46,78,97,78>>, <<46,78,65,78>> }

IsFloat(v) == IsFloatText(v) \/ SubSeq(v, Body(v), Len(v)) \in InfTail \/ v \in NaN
FloatOf(v) == IF v \in NaN THEN <<"nan">>
              ELSE IF SubSeq(v, Body(v), Len(v)) \in InfTail THEN <<"inf", NegOf(v)>>
              ELSE FloatVal(v)

\* ---------------------------------------------------------------- resolution
Resolve(v) ==
  IF v \in Null THEN <<"null">>
  ELSE IF v \in True THEN <<"bool", 1>>
  ELSE IF v \in False THEN <<"bool", 0>>
  ELSE IF IsDec(v) /\ Fits(NegOf(v), StripLead(Digits(v, Body(v), Len(v))))
       THEN IntVal(NegOf(v), StripLead(Digits(v, Body(v), Len(v))))
  ELSE IF IsHexI(v) \/ IsOctI(v)
       THEN LET m == Horner([j \in 1..(Len(v) - 2) |-> HexVal(v[j + 2])], IF v[2] = 120 THEN 16 ELSE 8) IN
            IF Fits(0, m) THEN IntVal(0, m) ELSE <<"str", v>>
  ELSE IF IsFloat(v) THEN FloatOf(v)
  ELSE <<"str", v>>

\* suffixes of the core tags
sBool == <<98,111,111,108>>  sInt == <<105,110,116>>  sFloat == <<102,108,111,97,116>>
sNull == <<110,117,108,108>> sStr == <<115,116,114>>
Forced(v, suf) ==
  LET r == Resolve(v) IN
  CASE suf = sBool  -> IF r[1] = "bool" THEN r ELSE <<"bad">>
    [] suf = sInt   -> IF r[1] = "int" THEN r ELSE <<"bad">>
    [] suf = sNull  -> IF r[1] = "null" THEN r ELSE <<"bad">>
    [] suf = sFloat -> IF IsFloat(v) THEN FloatOf(v) ELSE <<"bad">>
    [] suf = sStr   -> <<"str", v>>
    [] OTHER        -> <<"bad">>

\* the value of a scalar event <<k, style, text, anchor, tagged, handle, suffix>>
CoreHandle == <<116,97,103,58,121,97,109,108,46,111,114,103,44,50,48,48,50,58>>
IsCore(ev) == ev[5] = 1 /\ ev[6] = CoreHandle
ScalarNode(ev) ==
  LET plain == ev[2] = 0 IN
  IF ev[5] = 1 /\ ~IsCore(ev)
  THEN <<"tag", ev[6], ev[7], IF plain THEN Resolve(ev[3]) ELSE <<"str", ev[3]>> >>
  ELSE IF ~plain THEN <<"str", ev[3]>>
  ELSE IF ev[5] = 1 THEN Forced(ev[3], ev[7])
  ELSE Resolve(ev[3])

\* ---------------------------------------------- agreement of recorded values
\* Floats of at most 15 significant digits are recorded exactly; longer ones are rounded by the
\* implementation, so that they agree up to one unit in the 15th digit.
Pad(d, n) == IF Len(d) >= n THEN SubSeq(d, 1, n) ELSE d \o Repeat(0, n - Len(d))
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<1>> ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1]
          ELSE Append(Inc(SubSeq(d, 1, Len(d) - 1)), 0)
Near(d, x) ==                                \* <<15 digits, exponent>>, cut and one up
  LET a == Pad(d, 15) b == Inc(a) IN {<<a, x>>, IF Len(b) > 15 THEN <<SubSeq(b, 1, 15), x + 1>> ELSE <<b, x>>}
SameFloat(a, b) ==
  \/ a = b
  \/ /\ a[1] = "float" /\ b[1] = "float" /\ a[2] = b[2]
     /\ \/ Len(a[3]) > 15 \/ a[4] < -300 \/ a[4] > 306
     /\ \/ a[4] < -300 \/ a[4] > 306                  \* gradual underflow, overflow boundary
        \/ a[3] # <<>> /\ b[3] # <<>> /\ Near(a[3], a[4]) \cap Near(b[3], b[4]) # {}
  \/ a[1] = "float" /\ b[1] = "inf" /\ a[2] = b[2] /\ a[4] > 306

RECURSIVE SameTree(_, _)
SameTree(a, b) ==                            \* a by the specification, b recorded
  IF a[1] = "float" THEN b[1] \in {"float", "inf"} /\ SameFloat(a, b)
  ELSE IF a[1] # b[1] THEN FALSE
  ELSE CASE a[1] = "seq" -> Len(a[2]) = Len(b[2]) /\ \A j \in 1..Len(a[2]) : SameTree(a[2][j], b[2][j])
         [] a[1] = "map" -> Len(a[2]) = Len(b[2]) /\ \A j \in 1..Len(a[2]) :
                               SameTree(a[2][j][1], b[2][j][1]) /\ SameTree(a[2][j][2], b[2][j][2])
         [] a[1] = "tag" -> a[2] = b[2] /\ a[3] = b[3] /\ SameTree(a[4], b[4])
         [] OTHER -> a = b
=============================================================================
