------------------------------ MODULE JsonText ------------------------------
(* JSON texts as byte sequences: which are well formed, which values they   *)
(* denote, and what they say about a message.                               *)
(*                                                                          *)
(* values   <<0>> null | <<1, boolean>> | <<2, text of a number>>            *)
(*          <<3, bytes, lone>> string (lone: an unpaired surrogate)          *)
(*          <<4, values>> array | <<5, <<name, value> ...>> object           *)
(* Parsing takes i, the index of the next byte, and returns [i, v]; i = 0 if *)
(* there is no value. st: only what ECMA-404 allows; otherwise also numbers  *)
(* and white space as C++ streams read them and control characters in        *)
(* strings.                                                                  *)
EXTENDS Objects

None == [i |-> 0, v |-> <<0>>]
JWs == {9, 10, 13, 32}
W(s, i, st) == Skip(s, i, IF st THEN JWs ELSE WsSet)
Is(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
Lit_null == <<110, 117, 108, 108>>
Lit_true == <<116, 114, 117, 101>>
Lit_false == <<102, 97, 108, 115, 101>>

(* ------------------------------------------------------------ strings *)
Utf8(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Hex4(s, i) == IF i + 3 > Len(s) \/ \E k \in i..(i + 3) : HexDigit(s[k]) < 0 THEN -1
              ELSE HexDigit(s[i]) * 4096 + HexDigit(s[i + 1]) * 256 + HexDigit(s[i + 2]) * 16 + HexDigit(s[i + 3])
High(c) == c \div 1024 = 54
Low(c) == c \div 1024 = 55
Escaped == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
\* half of a pair is no character: it may be kept as three bytes or be replaced, what is around it stays
RECURSIVE Dull(_)
Dull(s) == IF s = <<>> THEN <<>>
           ELSE IF Len(s) >= 3 /\ s[1] = 237 /\ s[2] >= 160 THEN <<239, 191, 189>> \o Dull(SubSeq(s, 4, Len(s)))
           ELSE <<s[1]>> \o Dull(Tail(s))
RECURSIVE PStr(_, _, _, _, _)
PStr(s, i, st, acc, lone) ==
  IF i > Len(s) THEN None
  ELSE LET c == s[i]
       IN CASE c = 34 -> [i |-> i + 1, v |-> <<3, acc, lone>>]
            [] c = 92 ->
                 LET d == At1(s, i + 1)
                 IN IF d \in DOMAIN Escaped THEN PStr(s, i + 2, st, Append(acc, Escaped[d]), lone)
                    ELSE IF d # 117 THEN None
                    ELSE LET u == Hex4(s, i + 2)
                             w == IF At1(s, i + 6) = 92 /\ At1(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE -1
                         IN IF u < 0 THEN None
                            ELSE IF High(u) /\ w >= 0 /\ Low(w)
                                 THEN PStr(s, i + 12, st, acc \o Utf8(65536 + (u - 55296) * 1024 + (w - 56320)), lone)
                            ELSE PStr(s, i + 6, st, acc \o Utf8(u), lone \/ High(u) \/ Low(u))
            [] c < 32 /\ st -> None
            [] OTHER -> PStr(s, i + 1, st, Append(acc, c), lone)

(* ------------------------------------------------------------ numbers *)
PNum(s, i, st) ==
  LET sg == At1(s, i) = 45 \/ (~st /\ At1(s, i) = 43)
      i1 == IF sg THEN i + 1 ELSE i
      i2 == Skip(s, i1, DigSet)
      dot == At1(s, i2) = 46 /\ (~st \/ At1(s, i2 + 1) \in DigSet)
      i4 == IF dot THEN Skip(s, i2 + 1, DigSet) ELSE i2
      ex == At1(s, i4) \in {69, 101}
      i5 == IF At1(s, i4 + 1) \in {43, 45} THEN i4 + 2 ELSE i4 + 1
      i6 == IF ex THEN Skip(s, i5, DigSet) ELSE i4
      ok == /\ i2 > i1 \/ (~st /\ i4 > i2 + 1)
            /\ st => (i2 = i1 + 1 \/ At1(s, i1) # 48)
            /\ ex => i6 > i5
            /\ At1(s, i6) # 46
  IN IF ok THEN [i |-> i6, v |-> <<2, SubSeq(s, i, i6 - 1)>>] ELSE None

(* ------------------------------------------------------------ values *)
RECURSIVE PVal(_, _, _), PArr(_, _, _, _), PObj(_, _, _, _)
PVal(s, i0, st) ==
  LET i == W(s, i0, st)  c == At1(s, i)
  IN CASE c = 34 -> PStr(s, i + 1, st, <<>>, FALSE)
       [] c = 123 -> LET k == W(s, i + 1, st)
                     IN IF At1(s, k) = 125 THEN [i |-> k + 1, v |-> <<5, <<>>>>] ELSE PObj(s, k, st, <<>>)
       [] c = 91 -> LET k == W(s, i + 1, st)
                    IN IF At1(s, k) = 93 THEN [i |-> k + 1, v |-> <<4, <<>>>>] ELSE PArr(s, k, st, <<>>)
       [] c = 110 -> IF Is(s, i, Lit_null) THEN [i |-> i + 4, v |-> <<0>>] ELSE None
       [] c = 116 -> IF Is(s, i, Lit_true) THEN [i |-> i + 4, v |-> <<1, TRUE>>] ELSE None
       [] c = 102 -> IF Is(s, i, Lit_false) THEN [i |-> i + 5, v |-> <<1, FALSE>>] ELSE None
       [] c \in DigSet \cup {43, 45, 46} -> PNum(s, i, st)
       [] OTHER -> None
PArr(s, i, st, acc) ==
  LET r == PVal(s, i, st)  k == W(s, r.i, st)
  IN IF r.i = 0 THEN None
     ELSE IF At1(s, k) = 44 THEN PArr(s, k + 1, st, Append(acc, r.v))
     ELSE IF At1(s, k) = 93 THEN [i |-> k + 1, v |-> <<4, Append(acc, r.v)>>]
     ELSE None
PObj(s, i0, st, acc) ==
  LET i == W(s, i0, st)
      n == IF At1(s, i) = 34 THEN PStr(s, i + 1, st, <<>>, FALSE) ELSE None
      k == W(s, n.i, st)
      r == IF n.i > 0 /\ At1(s, k) = 58 THEN PVal(s, k + 1, st) ELSE None
      m == W(s, r.i, st)
      all == Append(acc, <<n.v[2], r.v>>)
  IN IF r.i = 0 THEN None
     ELSE IF At1(s, m) = 44 THEN PObj(s, m + 1, st, all)
     ELSE IF At1(s, m) = 125 THEN [i |-> m + 1, v |-> <<5, all>>]
     ELSE None

(* ------------------------------------------------------------ what is written *)
IntNumber(x) == Canon(Neg(x), DigitsOf(IF Neg(x) THEN Minus(x) ELSE x, <<>>), 0)
IsNum(j, n) == j[1] = 2 /\ DecText(j[2]).num = n
IsInt_(j, x) == j[1] = 2 /\ IsNum(j, IntNumber(x)) /\ \A k \in DOMAIN j[2] : j[2][k] \in DigSet \cup {45}
IsBool(in) == in.k = "enum" /\ in.els = <<"false", "true">>
HexText(s) ==
  LET dig(n) == IF n < 10 THEN 48 + n ELSE 87 + n
      RECURSIVE F(_)
      F(i) == IF i > Len(s) THEN <<>>
              ELSE (IF Len(s) = 16 /\ i \in {5, 7, 9, 11} THEN <<45>> ELSE <<>>) \o <<dig(s[i] \div 16), dig(s[i] % 16)>> \o F(i + 1)
  IN F(1)
Lower(s) == [i \in DOMAIN s |-> IF s[i] >= 65 /\ s[i] <= 70 THEN s[i] + 32 ELSE s[i]]
Items(v) == [i \in 1..(Len(v) \div 10) |-> SubSeq(v, 10 * (i - 1) + 1, 10 * i)]

(* nm: name -> its bytes; and under names no field has: the mask of tags of   *)
(* byte vectors which hold the text of an object, the mask of those to be     *)
(* left out, and the text these are written to or read from                   *)
Meets(a, b) == \E k \in {1, 2, 4, 8} : (a \div k) % 2 = 1 /\ (b \div k) % 2 = 1
Masked(nm, jm, im, text) == ("<raw>" :> jm) @@ ("<left out>" :> im) @@ ("<text>" :> text) @@ nm
Raw(nm, in) == in.k = "bv" /\ "<raw>" \in DOMAIN nm /\ Meets(in.tag, nm["<raw>"])
LeftOut(nm, in) == "<left out>" \in DOMAIN nm /\ Meets(in.tag, nm["<left out>"])
Within(x, s) == \E k \in 0..(Len(s) - Len(x)) : SubSeq(s, k + 1, k + Len(x)) = x
IsTree(x) == x # <<>> /\ x[1] = 123 /\ PVal(x, 1, TRUE).i = Len(x) + 1
SameTree(x, j) == LET r == PVal(x, 1, FALSE) IN x # <<>> /\ x[1] = 123 /\ r.i = Len(x) + 1 /\ r.v = j
\* what is to be written as it is can be
RECURSIVE Sayable(_, _, _, _), SayableAll(_, _, _, _)
Sayable(T, nm, in, v) ==
  v # Absent =>
    CASE in.k = "grp" -> SayableAll(T, nm, in.sub, v[2])
      [] in.k = "seq" -> \A i \in DOMAIN v[2] : SayableAll(T, nm, in.sub, v[2][i])
      [] in.k = "nest" -> SayableAll(T, nm, T[v[2][1]].sub, v[2][2])
      [] OTHER -> Raw(nm, in) => IsTree(v[2])
SayableAll(T, nm, fs, vs) == \A i \in DOMAIN fs : Sayable(T, nm, fs[i], vs[i])
RECURSIVE SaysF(_, _, _, _, _), SaysAll(_, _, _, _, _), SaysEl(_, _, _, _, _)
SaysF(T, nm, in, v, j) ==
  CASE IsBool(in) -> j[1] = 1 /\ j[2] = (v[2] # Zero)
    [] in.k \in {"i32", "u32", "i64", "u64", "enum", "set"} -> IsInt_(j, v[2])
    [] in.k \in {"dec", "sdec"} -> IsNum(j, Number(v[2]))
    [] in.k \in {"asc", "uni"} -> j[1] = 3 /\ ~j[3] /\ j[2] = v[2]
    [] Raw(nm, in) -> j[1] = 5 /\ SameTree(v[2], j) /\ Within(v[2], nm["<text>"])
    [] in.k = "bv" -> j[1] = 3 /\ Lower(j[2]) = HexText(v[2])
    [] in.k = "vec" -> LET xs == Items(v[2])
                       IN j[1] = 4 /\ Len(j[2]) = Len(xs) /\ \A i \in DOMAIN xs : IsInt_(j[2][i], xs[i])
    [] in.k = "grp" -> SaysAll(T, nm, in.sub, v[2], j)
    [] in.k = "seq" -> j[1] = 4 /\ Len(j[2]) = Len(v[2]) /\ \A i \in DOMAIN v[2] : SaysEl(T, nm, in.sub, v[2][i], j[2][i])
    [] in.k = "nest" -> SaysAll(T, nm, T[v[2][1]].sub, v[2][2], j)
(* a single dynamic template reference stands for what it is bound to *)
Alone(fs) == Len(fs) = 1 /\ fs[1].k = "nest"
SaysAll(T, nm, fs, vs, j) ==
  IF Alone(fs) THEN IF vs[1] = Absent THEN j = <<5, <<>>>> ELSE SaysAll(T, nm, T[vs[1][2][1]].sub, vs[1][2][2], j)
  ELSE LET P == SelectSeq([i \in DOMAIN fs |-> i], LAMBDA i : vs[i] # Absent /\ ~LeftOut(nm, fs[i]))
       IN /\ j[1] = 5 /\ Len(j[2]) = Len(P)
          /\ \A k \in DOMAIN P : /\ j[2][k][1] = nm[fs[P[k]].nm]
                                 /\ SaysF(T, nm, fs[P[k]], vs[P[k]], j[2][k][2])
(* elements with a single field without a name are written as that field *)
Bare(fs) == Len(fs) = 1 /\ fs[1].nm = ""
SaysEl(T, nm, fs, vs, j) ==
  IF Bare(fs) /\ ~Alone(fs) THEN IF vs[1] = Absent THEN j = <<0>> ELSE SaysF(T, nm, fs[1], vs[1], j)
  ELSE SaysAll(T, nm, fs, vs, j)
Written(s, ok(_)) == LET r == PVal(s, 1, TRUE) IN r.i = Len(s) + 1 /\ s[1] \notin JWs /\ ok(r.v)

(* ------------------------------------------------------------ what is read *)
(* must: the value has to be accepted. DecF: the content afterwards when the *)
(* document gives j for a field that held h and shows v now, <<9>> if that    *)
(* cannot be. DecAll: <<whether it can be, contents>>.                        *)
Never == <<9>>
Whole(t) == t.form /\ t.num[3] >= 0 /\ Len(t.num[2]) + t.num[3] <= 20
IntOf(t) == LET m == Digits([k \in 1..(Len(t.num[2]) + t.num[3]) |-> 48 + (IF k <= Len(t.num[2]) THEN t.num[2][k] ELSE 0)], 1, Zero)
            IN IF t.num[1] THEN Minus(m) ELSE m
IntTok(j) == \A k \in DOMAIN j[2] : j[2][k] \in DigSet \cup {45}
TypeOf(in) == IF in.k \in {"enum", "set"} THEN "u64" ELSE in.k
\* <<0>> no such value; <<1, value, must be accepted>>
IntIn(ty, j) ==
  IF j[1] # 2 THEN <<0>>
  ELSE LET t == DecText(j[2])
       IN IF ~Whole(t) \/ (t.num[1] /\ ty \in {"u32", "u64"}) \/ ~InRange(ty, IntOf(t)) THEN <<0>>
          ELSE <<1, IntOf(t), IntTok(j) /\ t.strict /\ (t.num[2] = <<>> => j[2][1] # 45)>>
ScalarIn(in, j) ==
  CASE IsBool(in) ->
         IF j[1] = 1 THEN <<1, IF j[2] THEN One ELSE Zero, TRUE>>
         ELSE LET r == IntIn("u64", j) IN IF r[1] = 1 /\ r[2] \in {Zero, One} THEN <<1, r[2], FALSE>> ELSE <<0>>
    [] in.k \in {"i32", "u32", "i64", "u64", "enum", "set"} -> IntIn(TypeOf(in), j)
    [] in.k \in {"dec", "sdec"} ->
         IF j[1] # 2 THEN <<0>>
         ELSE LET t == DecText(j[2])
              IN IF ~t.form THEN <<0>>
                 ELSE <<1, LET m == Digits([k \in DOMAIN t.num[2] |-> 48 + t.num[2][k]], 1, Zero)
                           IN Tidy(in, IF t.num[1] THEN Minus(m) ELSE m, t.num[3]), t.fits /\ ~ConstExp(in)>>
    [] in.k \in {"asc", "uni"} -> IF j[1] # 3 THEN <<0>> ELSE <<1, j[2], ~j[3]>>
    [] in.k = "bv" -> IF j[1] # 3 \/ ~HexOk(j[2]) THEN <<0>> ELSE <<1, HexBytes(j[2]), ~j[3]>>
    [] in.k = "vec" ->
         IF j[1] # 4 THEN <<0>>
         ELSE LET xs == [i \in DOMAIN j[2] |-> IntIn(in.et, j[2][i])]
              IN IF \E i \in DOMAIN xs : xs[i][1] = 0 THEN <<0>>
                 ELSE LET RECURSIVE C(_)
                          C(i) == IF i > Len(xs) THEN <<>> ELSE xs[i][2] \o C(i + 1)
                      IN <<1, C(1), \A i \in DOMAIN xs : xs[i][3]>>

(* the last member of that name *)
Member(j, name) == LET S == {i \in DOMAIN j[2] : j[2][i][1] = name}
                   IN IF S = {} THEN <<0>> ELSE j[2][CHOOSE i \in S : \A k \in S : k <= i][2]
Plain(in) == in.k \notin {"grp", "seq", "nest"}

RECURSIVE MustF(_, _, _), MustAll(_, _, _), DecF(_, _, _, _, _), DecAll(_, _, _, _, _)
MustF(nm, in, j) ==
  CASE j = <<0>> -> TRUE
    [] in.k = "grp" -> MustAll(nm, in.sub, j)
    [] in.k = "seq" -> j[1] = 4 /\ \A i \in DOMAIN j[2] : IF Bare(in.sub) THEN MustF(nm, in.sub[1], j[2][i]) ELSE MustAll(nm, in.sub, j[2][i])
    [] in.k = "nest" -> FALSE
    [] Raw(nm, in) -> j[1] = 5
    [] OTHER -> LET r == ScalarIn(in, j) IN r[1] = 1 /\ r[3]
\* every member of a known name, also one that a later one overrides
MustAll(nm, fs, j) ==
  \/ j = <<0>>
  \/ /\ j[1] = 5
     /\ \A k \in DOMAIN j[2] : \A i \in DOMAIN fs : nm[fs[i].nm] = j[2][k][1] => MustF(nm, fs[i], j[2][k][2])
Is_(h, v) == IF Vis(h) = v THEN h ELSE Never
Left(in, h, v) ==     \* neither given nor to be removed
  IF Vis(h) = v THEN h ELSE Is_(New(in), v)
DecF(nm, in, j, h, v) ==
  IF j = <<0>>
  THEN CASE in.k = "grp" /\ in.opt -> Is_(<<3, FALSE, h[3]>>, v)
         [] in.k = "seq" /\ in.opt -> Is_(<<4, FALSE, 0, h[4]>>, v)
         [] in.k = "nest" -> Is_(h, v)
         [] Plain(in) /\ in.opt -> Is_(Absent, v)
         [] OTHER -> Left(in, h, v)
  ELSE CASE in.k = "grp" -> IF j[1] # 5 \/ v = Absent THEN Never
                            ELSE LET r == DecAll(nm, in.sub, j, h[3], v[2]) IN IF ~r[1] THEN Never ELSE <<3, TRUE, r[2]>>
         [] in.k = "seq" ->
              IF j[1] # 4 \/ v = Absent THEN Never
              ELSE IF Len(v[2]) # Len(j[2]) THEN Never
              ELSE LET n == Len(j[2])
                       fresh == NewAll(in.sub)
                       old == [i \in 1..n |-> IF i <= Len(h[4]) THEN h[4][i] ELSE fresh]
                       els == [i \in 1..n |-> IF Bare(in.sub)
                                              THEN LET x == DecF(nm, in.sub[1], j[2][i], old[i][1], v[2][i][1])
                                                   IN <<x # Never, <<x>>>>
                                              ELSE DecAll(nm, in.sub, j[2][i], old[i], v[2][i])]
                   IN IF \E i \in 1..n : ~els[i][1] THEN Never
                      ELSE <<4, TRUE, n, [i \in 1..n |-> els[i][2]] \o (IF n >= Len(h[4]) THEN <<>> ELSE SubSeq(h[4], n + 1, Len(h[4])))>>
         [] in.k = "nest" -> Never
         [] Raw(nm, in) -> IF j[1] = 5 /\ v # Absent /\ v[1] = 1 /\ SameTree(v[2], j) /\ Within(v[2], nm["<text>"]) THEN v ELSE Never
         [] OTHER -> LET r == ScalarIn(in, j)
                     IN IF r[1] = 0 THEN Never
                        ELSE IF j[1] = 3 /\ j[3] THEN (IF v # Absent /\ v[1] = 1 /\ Dull(v[2]) = Dull(r[2]) THEN v ELSE Never)
                        ELSE Is_(Some(r[2]), v)
DecAll(nm, fs, j, hs, vs) ==
  IF j[1] \notin {0, 5} THEN <<FALSE, <<>>>>
  ELSE LET xs == [i \in DOMAIN fs |-> DecF(nm, fs[i], IF j[1] = 0 THEN <<0>> ELSE Member(j, nm[fs[i].nm]), hs[i], vs[i])]
       IN <<\A i \in DOMAIN xs : xs[i] # Never, xs>>

(* contents that show v, nothing being known of what they hide *)
RECURSIVE Showing(_, _, _)
Showing(T, in, v) ==
  LET all(fs, vs) == [i \in DOMAIN fs |-> Showing(T, fs[i], vs[i])]
  IN CASE in.k = "grp" -> IF v = Absent THEN <<3, FALSE, NewAll(in.sub)>> ELSE <<3, TRUE, all(in.sub, v[2])>>
       [] in.k = "seq" -> IF v = Absent THEN <<4, FALSE, 0, <<>>>>
                          ELSE <<4, TRUE, Len(v[2]), [i \in DOMAIN v[2] |-> all(in.sub, v[2][i])]>>
       [] in.k = "nest" -> IF v = Absent THEN <<5, 0, <<>>>> ELSE <<5, v[2][1], all(T[v[2][1]].sub, v[2][2])>>
       [] OTHER -> v
=============================================================================
