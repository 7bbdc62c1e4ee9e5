------------------------------ MODULE NodeModel ------------------------------
(* The accessors of a node as operations on trees (the trees of CoreSchema and Loader, plus
   <<"alias", id>> and <<"bad">>).  A place in a tree is a sequence of steps: <<j>> the j-th
   element of a sequence, <<j, 1>> and <<j, 2>> key and value of the j-th entry of a mapping,
   <<>> the node inside a tag. *)
EXTENDS CoreSchema

RECURSIVE At(_, _)
At(n, path) ==
  IF path = <<>> THEN n
  ELSE LET s == path[1] rest == Tail(path) IN
       At(CASE n[1] = "seq" -> n[2][s[1]] [] n[1] = "map" -> n[2][s[1]][s[2]] [] OTHER -> n[4], rest)
RECURSIVE Put(_, _, _)
Put(n, path, v) ==
  IF path = <<>> THEN v
  ELSE LET s == path[1] rest == Tail(path) IN
       CASE n[1] = "seq" -> [n EXCEPT ![2][s[1]] = Put(@, rest, v)]
         [] n[1] = "map" -> [n EXCEPT ![2][s[1]][s[2]] = Put(@, rest, v)]
         [] OTHER -> [n EXCEPT ![4] = Put(@, rest, v)]

\* The spans of a node: <<number, spans of its parts>>, key and value of an entry as two parts
Part(step) == CASE step = <<>> -> 1 [] Len(step) = 1 -> step[1] [] OTHER -> 2 * step[1] - 2 + step[2]
RECURSIVE SpansAt(_, _)
SpansAt(s, path) == IF path = <<>> THEN s ELSE SpansAt(s[2][Part(path[1])], Tail(path))
RECURSIVE SpansPut(_, _, _)
SpansPut(s, path, v) ==
  IF path = <<>> THEN v ELSE [s EXCEPT ![2][Part(path[1])] = SpansPut(@, Tail(path), v)]

Kind(n) == IF n[1] \in {"nan", "inf"} THEN "float" ELSE n[1]
TypeName(n) ==
  LET k == Kind(n) IN
  CASE k = "null" -> "Null" [] k = "bool" -> "Bool" [] k = "int" -> "Integer" [] k = "float" -> "Floating"
    [] k = "str" -> "String" [] k = "seq" -> "Sequence" [] k = "map" -> "Mapping" [] k = "alias" -> "Alias"
    [] OTHER -> "Bad"                                    \* bad values and tagged nodes
RECURSIVE DecimalOf(_)
DecimalOf(n) == IF n < 10 THEN <<n>> ELSE Append(DecimalOf(n \div 10), n % 10)
IntNode(n) == <<"int", 0, DecimalOf(n)>>

\* Equality of nodes: the same tree, except that NaN differs from itself and 0.0 = -0.0
RECURSIVE Equal(_, _)
Equal(a, b) ==
  IF a[1] # b[1] THEN FALSE
  ELSE CASE a[1] = "nan" -> FALSE
         [] a[1] = "float" /\ a[3] = <<>> -> b[3] = <<>>
         [] a[1] = "seq" -> Len(a[2]) = Len(b[2]) /\ \A j \in 1..Len(a[2]) : Equal(a[2][j], b[2][j])
         [] a[1] = "map" -> Len(a[2]) = Len(b[2]) /\ \A j \in 1..Len(a[2]) :
                               Equal(a[2][j][1], b[2][j][1]) /\ Equal(a[2][j][2], b[2][j][2])
         [] a[1] = "tag" -> a[2] = b[2] /\ a[3] = b[3] /\ Equal(a[4], b[4])
         [] OTHER -> a = b

\* ---------------------------------------------------------------- reading
If(c, v) == IF c THEN <<v>> ELSE <<>>
Bit(c) == IF c THEN 1 ELSE 0
Predicates(n) ==
  LET k == Kind(n) IN
  <<Bit(TypeName(n) = "Bad"), Bit(k = "null"), Bit(k = "str"), Bit(k = "bool"), Bit(k = "float"), Bit(k = "int"), Bit(k = "alias"),
    Bit(k = "map"), Bit(k = "seq"), Bit(k \in {"map", "seq"}), Bit(k \in {"map", "seq"} /\ Len(n[2]) > 0)>>
Contents(n) ==                              \* bool, integer, float, string, sequence, mapping, and the latter two without a result
  LET k == Kind(n) IN
  <<IF k = "bool" THEN <<n[2]>> ELSE <<>>, If(k = "int", n), If(k = "float", n), IF k = "str" THEN <<n[2]>> ELSE <<>>,
    IF k = "seq" THEN <<"ok", n[2]>> ELSE <<"expected", "sequence">>,
    IF k = "map" THEN <<"ok", n[2]>> ELSE <<"expected", "mapping">>,
    IF k = "seq" THEN <<n[2]>> ELSE <<>>, IF k = "map" THEN <<n[2]>> ELSE <<>> >>
Probe(n) ==
  LET c == Contents(n) IN
  <<Predicates(n), TypeName(n), c, c, <<c[1], c[2], c[3], c[4], c[7], c[8]>>,
    IF n[1] = "tag" THEN << <<n[2], n[3]>> >> ELSE <<>>, n>>

\* ----------------------------------------------- indexing by position or key
EntryOf(n, key) ==                          \* first entry with this key, 0 if there is none
  LET S == {j \in 1..Len(n[2]) : Equal(n[2][j][1], key)} IN
  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A q \in S : j <= q
\* place of the child an index denotes, <<>> if there is none
Child(n, byKey, arg) ==
  CASE n[1] = "map" -> LET j == EntryOf(n, IF byKey THEN <<"str", arg>> ELSE IntNode(arg)) IN
                       IF j = 0 THEN <<>> ELSE << <<j, 2>> >>
    [] n[1] = "seq" /\ ~byKey -> IF arg < Len(n[2]) THEN << <<arg + 1>> >> ELSE <<>>
    [] OTHER -> <<>>

Upper(b) == [j \in 1..Len(b) |-> IF b[j] \in 97..122 THEN b[j] - 32 ELSE b[j]]
Neg(n) == <<"int", Bit(n > 0), DecimalOf(n)>>
Half(n) ==                                  \* n + 1/2
  LET d == StripLead(DecimalOf(n)) \o <<5>> IN <<"float", 0, d, Len(d) - 1>>

OK == <<"ok">>
NONE == <<"none">>
\* <<result, node afterwards>>
Apply(n, op, byKey, arg, new, other) ==
  LET k == Kind(n) same == <<NONE, n>> IN
  CASE op = "probe" -> <<Probe(n), n>>
    [] op = "read" -> LET c == Child(n, byKey, arg) IN <<IF c = <<>> THEN <<>> ELSE <<At(n, c)>>, n>>
    [] op = "write" -> LET c == Child(n, byKey, arg) IN IF c = <<>> THEN same ELSE <<OK, Put(n, c, new)>>
    [] op = "bool" -> IF k = "bool" THEN <<OK, <<"bool", arg % 2>> >> ELSE same
    [] op = "int" -> IF k = "int" THEN <<OK, Neg(arg)>> ELSE same
    [] op = "float" -> IF k = "float" THEN <<OK, Half(arg)>> ELSE same
    [] op = "upper" -> IF k = "str" THEN <<OK, <<"str", Upper(n[2])>> >> ELSE same
    [] op = "push" -> IF k = "seq" THEN <<OK, <<"seq", Append(n[2], new)>> >> ELSE same
    [] op = "set" -> IF k = "seq" /\ n[2] # <<>> THEN <<OK, Put(n, << <<(arg % Len(n[2])) + 1>> >>, new)>> ELSE same
    [] op = "entry" -> IF k = "map" THEN <<OK, <<"map", Append(n[2], <<new, IntNode(arg)>>)>> >> ELSE same
    [] op = "value" -> IF k = "map" /\ n[2] # <<>> THEN <<OK, Put(n, << <<(arg % Len(n[2])) + 1, 2>> >>, new)>> ELSE same
    [] op = "take" -> << <<"took", n>>, <<"bad">> >>
    [] op = "tag" -> <<OK, <<"tag", <<33>>, <<116>>, n>> >>
    [] op = "equal" -> << <<Bit(Equal(n, other))>>, n>>

\* Spans afterwards of a node n with spans s: a write changes none but puts the new node's in
\* place; `new` are those of the new node, `left` the one of the bad value that taking leaves
SpansAfter(n, s, op, byKey, arg, new, left) ==
  LET k == Kind(n) IN
  CASE op = "write" -> LET c == Child(n, byKey, arg) IN IF c = <<>> THEN s ELSE SpansPut(s, c, new)
    [] op = "push" /\ k = "seq" -> <<s[1], Append(s[2], new)>>
    [] op = "set" /\ k = "seq" /\ n[2] # <<>> -> SpansPut(s, << <<(arg % Len(n[2])) + 1>> >>, new)
    [] op = "entry" /\ k = "map" -> <<s[1], s[2] \o <<new, <<0, <<>> >> >> >>
    [] op = "value" /\ k = "map" /\ n[2] # <<>> -> SpansPut(s, << <<(arg % Len(n[2])) + 1, 2>> >>, new)
    [] op = "take" -> <<left[1], <<>> >>
    [] op = "tag" -> <<s[1], <<s>> >>
    [] OTHER -> s
\* ... and those of what it hands out: a copy and the parts of a collection, or the node taken
SpansOut(n, s, op) ==
  CASE op = "probe" -> <<s, IF n[1] \in {"seq", "map"} THEN s[2] ELSE <<>> >>
    [] op = "take" -> s
    [] OTHER -> <<>>
=============================================================================
