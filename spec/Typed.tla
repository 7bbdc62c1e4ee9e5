------------------------------- MODULE Typed -------------------------------
(* Typed deserialization: what a shape of type denotes on the events of a document.  E holds the
   events of the first document between its start and its end, cut at the first error: whatever
   needs an event beyond them fails.  A shape is
     <<"bool">> <<"i8">>..<<"i128">> <<"u8">>..<<"u128">> <<"f32">> <<"f64">> <<"char">> <<"string">>
     <<"unit">> <<"any">> <<"ignored">>  <<"opt", S>> <<"new", S>> <<"seq", S>> <<"map", K, V>>
     <<"tup", <<S..>> >> <<"tups", <<S..>> >> <<"struct", << <<field, S>>.. >> >>
     <<"enum", << <<variant, <<"unit">> | <<"new", S>> | <<"tup", ..>> | <<"struct", ..>> >>.. >> >>
   Reading gives <<1, value, position after it>> or <<0>>. *)
EXTENDS CoreSchema

No == <<0>>
Yes(v, j) == <<1, v, j>>
Wrap(k, r) == IF r[1] = 0 THEN No ELSE Yes(<<k, r[2]>>, r[3])

\* the resolved value of a scalar event; tags outside the core schema do not count
ValueOf(e) == LET n == ScalarNode(e) IN IF n[1] = "tag" THEN n[4] ELSE n
IsNullEv(e) == e[1] = "SC" /\ ValueOf(e) = <<"null">>

\* ------------------------------------------------------------------ integers
Dg(s) == [j \in 1..Len(s) |-> s[j]]
MaxOf == [i8 |-> <<1,2,7>>, i16 |-> <<3,2,7,6,7>>, i32 |-> <<2,1,4,7,4,8,3,6,4,7>>, i64 |-> MaxI64,
          u8 |-> <<2,5,5>>, u16 |-> <<6,5,5,3,5>>, u32 |-> <<4,2,9,4,9,6,7,2,9,5>>,
          u64 |-> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>]
MinOf == [i8 |-> <<1,2,8>>, i16 |-> <<3,2,7,6,8>>, i32 |-> <<2,1,4,7,4,8,3,6,4,8>>, i64 |-> MinI64,
          u8 |-> <<>>, u16 |-> <<>>, u32 |-> <<>>, u64 |-> <<>>]
Signless == {"u8", "u16", "u32", "u64"}
InRange(k, neg, mag) == Le(mag, IF neg = 1 THEN MinOf[k] ELSE MaxOf[k])
Mag(v) == StripLead(v[3])                                \* of a resolved integer
\* a decimal in any style, or else whatever the core schema takes for an integer
IntRead(k, e, j) ==
  LET v == e[3] r == ValueOf(e)
      mag == StripLead(Digits(v, Body(v), Len(v)))
      direct == IsDec(v) /\ ~(k \in Signless /\ NegOf(v) = 1) /\ InRange(k, NegOf(v), mag)
  IN IF direct THEN Yes(IntVal(NegOf(v), mag), j + 1)
     ELSE IF r[1] = "int" /\ InRange(k, r[2], Mag(r)) THEN Yes(r, j + 1)
     ELSE No
WideRead(k, e, j) ==
  LET r == ValueOf(e) IN IF r[1] = "int" /\ (k = "i128" \/ r[2] = 0) THEN Yes(r, j + 1) ELSE No
FloatRead(kind, e, j) ==
  LET r == ValueOf(e) IN
  IF r[1] = "int"
  THEN Yes(IF r[3] = <<0>> THEN <<kind, 0, <<>>, 0>> ELSE <<kind, r[2], Strip(r[3]), Len(r[3])>>, j + 1)
  ELSE IF r[1] = "float" THEN Yes(<<kind, r[2], r[3], r[4]>>, j + 1)
  ELSE IF r[1] \in {"inf", "nan"} THEN Yes(r, j + 1) ELSE No
OneChar(v) == v # <<>> /\ Cardinality({j \in 1..Len(v) : v[j] \notin 128..191}) = 1

Index(fs, name) == IF \E f \in 1..Len(fs) : fs[f][1] = name
                   THEN CHOOSE f \in 1..Len(fs) : fs[f][1] = name /\ \A g \in 1..(f - 1) : fs[g][1] # name
                   ELSE 0
NameOf(e) == IF e[1] = "SC" /\ ValueOf(e)[1] = "str" THEN <<1, ValueOf(e)[2]>> ELSE <<0>>

RECURSIVE Read(_, _, _), Elems(_, _, _, _), Fixed(_, _, _, _), Pairs(_, _, _, _, _), Fields(_, _, _, _), AnyOf(_, _)

Elems(E, j, sh, acc) ==                                  \* up to the end of the sequence
  IF j > Len(E) THEN No
  ELSE IF E[j][1] = "QE" THEN Yes(acc, j + 1)
  ELSE LET r == Read(E, j, sh) IN IF r[1] = 0 THEN No ELSE Elems(E, r[3], sh, Append(acc, r[2]))
Fixed(E, j, shs, acc) ==                                 \* exactly Len(shs) elements
  IF j > Len(E) THEN No
  ELSE IF Len(acc) = Len(shs) THEN (IF E[j][1] = "QE" THEN Yes(acc, j + 1) ELSE No)
  ELSE IF E[j][1] = "QE" THEN No
  ELSE LET r == Read(E, j, shs[Len(acc) + 1]) IN IF r[1] = 0 THEN No ELSE Fixed(E, r[3], shs, Append(acc, r[2]))
Pairs(E, j, ks, vs, acc) ==
  IF j > Len(E) THEN No
  ELSE IF E[j][1] = "ME" THEN Yes(acc, j + 1)
  ELSE LET a == Read(E, j, ks) IN
       IF a[1] = 0 THEN No
       ELSE LET b == Read(E, a[3], vs) IN
            IF b[1] = 0 THEN No ELSE Pairs(E, b[3], ks, vs, Append(acc, <<a[2], b[2]>>))
Fields(E, j, fs, acc) ==                                 \* acc[f]: <<>> or <<value>> of field f
  IF j > Len(E) THEN No
  ELSE IF E[j][1] = "ME" THEN Yes(acc, j + 1)
  ELSE LET n == NameOf(E[j]) IN
       IF n[1] = 0 THEN No
       ELSE LET f == Index(fs, n[2])
                r == Read(E, j + 1, IF f = 0 THEN <<"ignored">> ELSE fs[f][2]) IN
            IF r[1] = 0 \/ (f # 0 /\ acc[f] # <<>>) THEN No
            ELSE Fields(E, r[3], fs, IF f = 0 THEN acc ELSE [acc EXCEPT ![f] = <<r[2]>>])
FromMap(E, j, fs) ==                                     \* j: after the start of the mapping
  LET r == Fields(E, j, fs, [f \in 1..Len(fs) |-> <<>>]) IN
  IF r[1] = 0 THEN No
  ELSE IF \E f \in 1..Len(fs) : r[2][f] = <<>> /\ fs[f][2][1] # "opt" THEN No
  ELSE Yes(<<"struct", [f \in 1..Len(fs) |-> IF r[2][f] = <<>> THEN <<"none">> ELSE r[2][f][1]]>>, r[3])

AnyOf(E, j) ==
  LET e == E[j] IN
  CASE e[1] = "SC" -> LET v == ValueOf(e) IN
                      IF v[1] = "bad" THEN No ELSE Yes(IF v = <<"null">> THEN <<"unit">> ELSE v, j + 1)
    [] e[1] = "QS" -> Wrap("seq", Elems(E, j + 1, <<"any">>, <<>>))
    [] e[1] = "MS" -> Wrap("map", Pairs(E, j + 1, <<"any">>, <<"any">>, <<>>))
    [] OTHER -> No

Payload(E, j, sh) ==
  CASE sh[1] = "unit" -> IF IsNullEv(E[j]) THEN Yes(<<"unit">>, j + 1) ELSE No
    [] sh[1] = "tup" -> IF E[j][1] = "QS" THEN Wrap("tup", Fixed(E, j + 1, sh[2], <<>>)) ELSE No
    [] sh[1] = "struct" -> IF E[j][1] = "MS" THEN FromMap(E, j + 1, sh[2]) ELSE No
    [] OTHER -> Read(E, j, sh[2])
EnumRead(E, j, vs) ==
  LET e == E[j] IN
  IF e[1] = "SC"
  THEN LET v == Index(vs, e[3]) IN
       IF v # 0 /\ vs[v][2][1] = "unit" THEN Yes(<<"enum", e[3], <<"unit">> >>, j + 1) ELSE No
  ELSE IF e[1] # "MS" \/ j + 2 > Len(E) THEN No
  ELSE LET n == NameOf(E[j + 1]) IN
       IF n[1] = 0 THEN No
       ELSE LET v == Index(vs, n[2]) IN
            IF v = 0 THEN No
            ELSE LET r == Payload(E, j + 2, vs[v][2]) IN
                 IF r[1] = 0 THEN No
                 ELSE IF r[3] > Len(E) THEN No
                 ELSE IF E[r[3]][1] # "ME" THEN No
                 ELSE Yes(<<"enum", n[2], r[2]>>, r[3] + 1)

Leaf(e, j, sh) ==
  IF e[1] # "SC" THEN No
  ELSE LET v == ValueOf(e) k == sh[1] IN
  CASE k \in {"i8", "i16", "i32", "i64"} \cup Signless -> IntRead(k, e, j)
    [] k \in {"i128", "u128"} -> WideRead(k, e, j)
    [] k = "f64" -> FloatRead("float", e, j)
    [] k = "f32" -> FloatRead("float32", e, j)
    [] k = "bool" -> IF v[1] = "bool" THEN Yes(v, j + 1) ELSE No
    [] k = "string" -> IF v[1] = "str" THEN Yes(v, j + 1) ELSE No
    [] k = "char" -> IF v[1] = "str" /\ OneChar(v[2]) THEN Yes(<<"char", v[2]>>, j + 1) ELSE No
    [] k = "unit" -> IF v[1] = "null" THEN Yes(<<"unit">>, j + 1) ELSE No

Read(E, j, sh) ==
  LET k == sh[1] IN
  IF j > Len(E) THEN No
  ELSE CASE k = "opt" -> IF IsNullEv(E[j]) THEN Yes(<<"none">>, j + 1) ELSE Wrap("some", Read(E, j, sh[2]))
         [] k = "new" -> Wrap("new", Read(E, j, sh[2]))
         [] k = "any" -> AnyOf(E, j)
         [] k = "ignored" -> LET r == AnyOf(E, j) IN IF r[1] = 0 THEN No ELSE Yes(<<"ignored">>, r[3])
         [] k = "seq" -> IF E[j][1] = "QS" THEN Wrap("seq", Elems(E, j + 1, sh[2], <<>>)) ELSE No
         [] k \in {"tup", "tups"} -> IF E[j][1] = "QS" THEN Wrap("tup", Fixed(E, j + 1, sh[2], <<>>)) ELSE No
         [] k = "map" -> IF E[j][1] = "MS" THEN Wrap("map", Pairs(E, j + 1, sh[2], sh[3], <<>>)) ELSE No
         [] k = "struct" -> IF E[j][1] = "MS" THEN FromMap(E, j + 1, sh[2])
                            ELSE IF E[j][1] = "QS"
                            THEN Wrap("struct", Fixed(E, j + 1, [f \in 1..Len(sh[2]) |-> sh[2][f][2]], <<>>))
                            ELSE No
         [] k = "enum" -> EnumRead(E, j, sh[2])
         [] OTHER -> Leaf(E[j], j, sh)

\* ------------------------------------- agreement of the value read (a) and the recorded one (b)
SameF32(a, b) ==                             \* at most 6 digits of ordinary size are kept exactly
  IF Len(a[3]) > 6 \/ a[4] > 37 \/ a[4] < -36 THEN b[1] \in {"float", "inf"} /\ a[2] = b[2]
  ELSE b[1] = "float" /\ b[2] = a[2] /\ b[3] = a[3] /\ b[4] = a[4]
RECURSIVE SameTyped(_, _)
All2(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : SameTyped(a[j], b[j])
SameTyped(a, b) ==
  CASE a[1] = "float" -> b[1] \in {"float", "inf"} /\ SameFloat(a, b)
    [] a[1] = "float32" -> SameF32(a, b)
    [] a[1] # b[1] -> FALSE
    [] a[1] \in {"seq", "tup", "struct"} -> All2(a[2], b[2])
    [] a[1] = "map" -> Len(a[2]) = Len(b[2]) /\ \A j \in 1..Len(a[2]) : All2(a[2][j], b[2][j])
    [] a[1] \in {"some", "new"} -> SameTyped(a[2], b[2])
    [] a[1] = "enum" -> a[2] = b[2] /\ SameTyped(a[3], b[3])
    [] OTHER -> a = b
=============================================================================
