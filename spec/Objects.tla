------------------------------- MODULE Objects -------------------------------
(* Messages as values.                                                      *)
(*                                                                          *)
(* What a field holds (visible is what a reader sees, see Vis):             *)
(*   scalar    <<0>> absent | <<1, x>>                                      *)
(*   group     <<3, present, fields>>      (an absent group keeps its fields)*)
(*   sequence  <<4, present, n, elements ever exposed>>                     *)
(*   nested    <<5, template id, fields>> | <<5, 0, <<>>>> unbound          *)
(* An operation is the set of contents it may leave: mostly one.            *)
EXTENDS Templates, FiniteSets

(* ------------------------------------------------------------ decimal digits *)
(* quotient and remainder of a number >= 0 by 10, digit by digit            *)
DivMod10(a) ==
  LET F[i \in 0..10] == IF i = 0 THEN <<<<>>, 0>>
                        ELSE LET p == F[i - 1]  x == p[2] * 128 + a[11 - i]
                             IN <<Append(p[1], x \div 10), x % 10>>
      r == F[10]
  IN <<[i \in 1..10 |-> r[1][11 - i]], r[2]>>
RECURSIVE DigitsOf(_, _)
DigitsOf(a, acc) == IF a = Zero THEN acc ELSE LET q == DivMod10(a) IN DigitsOf(q[1], <<q[2]>> \o acc)
RECURSIVE StripLead(_)
StripLead(d) == IF d # <<>> /\ d[1] = 0 THEN StripLead(Tail(d)) ELSE d
RECURSIVE StripTrail(_, _)
StripTrail(d, e) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripTrail(SubSeq(d, 1, Len(d) - 1), e + 1) ELSE <<d, e>>
(* the number digits * 10^e in the one form with no zeros at either end     *)
Canon(neg, digits, e) ==
  LET r == StripTrail(StripLead(digits), e)
  IN IF r[1] = <<>> THEN <<FALSE, <<>>, 0>> ELSE <<neg, r[1], r[2]>>
ExpOf(x) == ToIntS(SubSeq(x, 1, 10))
MantOf(x) == SubSeq(x, 11, 20)
Number(x) == LET m == MantOf(x)
             IN Canon(Neg(m), DigitsOf(IF Neg(m) THEN Minus(m) ELSE m, <<>>), ExpOf(x))
Dec_(m, e) == FromInt(e) \o m
(* mantissa without trailing zeros, the exponent moved accordingly *)
RECURSIVE Normal(_, _)
Normal(m, e) ==
  IF m = Zero THEN Dec_(Zero, 0)
  ELSE LET n == Neg(m)  q == DivMod10(IF n THEN Minus(m) ELSE m)
       IN IF q[2] = 0 THEN Normal(IF n THEN Minus(q[1]) ELSE q[1], e + 1) ELSE Dec_(m, e)

(* ------------------------------------------------------------ decimal texts *)
(* [ws] [+-] digits [. digits] [e [+-] digits]                              *)
IsWs(c) == c \in {9, 10, 11, 12, 13, 32}
RECURSIVE Skip(_, _, _)
Skip(s, i, S) == IF i <= Len(s) /\ s[i] \in S THEN Skip(s, i + 1, S) ELSE i
WsSet == {9, 10, 11, 12, 13, 32}
DigSet == 48..57
At1(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
DecText(s) ==
  LET i0 == Skip(s, 1, WsSet)
      sg == At1(s, i0) \in {43, 45}
      i1 == IF sg THEN i0 + 1 ELSE i0
      i2 == Skip(s, i1, DigSet)
      dot == At1(s, i2) = 46
      i3 == IF dot THEN i2 + 1 ELSE i2
      i4 == IF dot THEN Skip(s, i3, DigSet) ELSE i2
      ex == At1(s, i4) \in {69, 101}
      esg == ex /\ At1(s, i4 + 1) \in {43, 45}
      i5 == IF ~ex THEN i4 ELSE IF esg THEN i4 + 2 ELSE i4 + 1
      i6 == IF ex THEN Skip(s, i5, DigSet) ELSE i4
      i7 == Skip(s, i6, WsSet)
      whole == [k \in 1..(i2 - i1) |-> s[i1 + k - 1] - 48]
      frac == [k \in 1..(i4 - i3) |-> s[i3 + k - 1] - 48]
      RECURSIVE ToN(_, _)
      ToN(k, acc) == IF k > i6 - 1 THEN acc ELSE ToN(k + 1, IF acc > 100000 THEN acc ELSE acc * 10 + (s[k] - 48))
      e == IF ~ex THEN 0 ELSE IF esg /\ s[i4 + 1] = 45 THEN 0 - ToN(i5, 0) ELSE ToN(i5, 0)
      loose == i2 > i1 \/ i4 > i3
      form == /\ i7 = Len(s) + 1 /\ loose /\ (ex => i6 > i5)
      digits == whole \o frac
      neg == At1(s, i0) = 45
      num == Canon(neg, digits, e - Len(frac))
      RECURSIVE Acc(_, _)
      Acc(k, a) == IF k > Len(digits) THEN a ELSE Acc(k + 1, MulSmall(a, 10, digits[k]))
      m == Acc(1, Zero)
  IN [form |-> form,                      \* denotes a number
      strict |-> form /\ i0 = 1 /\ At1(s, 1) # 43 /\ i2 > i1 /\ (dot => i4 > i3) /\ i7 = i6,
      fits |-> Len(StripLead(digits)) <= 20 /\ InRange("i64", IF neg THEN Minus(m) ELSE m)
               /\ e - Len(frac) \in -32000..32000,
      num |-> num]

(* ------------------------------------------------------------ new fields *)
IsArr(in) == in.k \in {"asc", "uni", "bv", "vec"}
Agg(in) == in.k \in {"grp", "seq", "nest"}
ZeroOf(in) == IF IsArr(in) THEN Some(<<>>) ELSE IF in.k \in {"dec", "sdec"} THEN Some(Dec_(Zero, 0)) ELSE Some(Zero)
(* a decimal with operators of its own has an initial value when its exponent has one;
   a mandatory field is never absent *)
SdecNew(in) == LET m == in.ma[1].init
               IN Some((IF in.init = Absent THEN Zero ELSE in.init[2]) \o (IF m = Absent THEN Zero ELSE m[2]))
ToInitial(in) ==
  IF in.k = "sdec" THEN IF in.opt THEN (IF in.init = Absent THEN Absent ELSE SdecNew(in)) ELSE SdecNew(in)
  ELSE IF in.init # Absent THEN in.init ELSE IF in.opt THEN Absent ELSE ZeroOf(in)

RECURSIVE New(_), NewAll(_)
NewAll(fs) == [i \in DOMAIN fs |-> New(fs[i])]
New(in) ==
  CASE in.k = "grp" -> <<3, ~in.opt, NewAll(in.sub)>>
    [] in.k = "seq" ->
         LET l == in.len[1].init
             n == IF in.opt \/ l = Absent THEN 0 ELSE ToInt(l[2])
             e == NewAll(in.sub)
         IN <<4, ~in.opt, n, [i \in 1..n |-> e]>>
    [] in.k = "nest" -> <<5, 0, <<>>>>
    [] OTHER -> IF in.opt THEN Absent ELSE ToInitial(in)

RECURSIVE Vis(_), VisAll(_)
VisAll(hs) == [i \in DOMAIN hs |-> Vis(hs[i])]
Vis(h) == CASE h[1] = 3 -> IF h[2] THEN <<3, VisAll(h[3])>> ELSE Absent
            [] h[1] = 4 -> IF h[2] THEN <<4, [i \in 1..h[3] |-> VisAll(h[4][i])]>> ELSE Absent
            [] h[1] = 5 -> IF h[2] = 0 THEN Absent ELSE <<5, <<h[2], VisAll(h[3])>>>>
            [] OTHER -> h

(* a copy holds nothing of what the original does not show, but for groups  *)
RECURSIVE Copy(_), CopyAll(_)
CopyAll(hs) == [i \in DOMAIN hs |-> Copy(hs[i])]
Copy(h) == CASE h[1] = 3 -> <<3, h[2], CopyAll(h[3])>>
             [] h[1] = 4 -> <<4, h[2], h[3], [i \in 1..h[3] |-> CopyAll(h[4][i])]>>
             [] h[1] = 5 -> <<5, h[2], CopyAll(h[3])>>
             [] OTHER -> h

(* ------------------------------------------------------------ where *)
(* p: field; element after a sequence; nothing after a group or a nested message *)
RECURSIVE InAt(_, _, _, _), Get(_, _), Put(_, _, _)
(* T: template id -> instruction of the template; fs and hs: instructions and contents *)
InAt(T, fs, hs, p) ==
  LET in == fs[p[1] + 1]  h == hs[p[1] + 1]
  IN IF Len(p) = 1 THEN in
     ELSE CASE in.k = "grp" -> InAt(T, in.sub, h[3], Tail(p))
            [] in.k = "seq" -> InAt(T, in.sub, h[4][p[2] + 1], Tail(Tail(p)))
            [] in.k = "nest" -> InAt(T, T[h[2]].sub, h[3], Tail(p))
Get(hs, p) ==
  LET h == hs[p[1] + 1]
  IN IF Len(p) = 1 THEN h
     ELSE CASE h[1] = 4 -> Get(h[4][p[2] + 1], Tail(Tail(p)))
            [] OTHER -> Get(h[3], Tail(p))
(* a group on the way becomes present *)
Put(hs, p, x) ==
  LET i == p[1] + 1  h == hs[i]
  IN IF Len(p) = 1 THEN [hs EXCEPT ![i] = x]
     ELSE CASE h[1] = 4 -> [hs EXCEPT ![i] = <<4, h[2], h[3], [h[4] EXCEPT ![p[2] + 1] = Put(@, Tail(Tail(p)), x)]>>]
            [] h[1] = 3 -> [hs EXCEPT ![i] = <<3, TRUE, Put(h[3], Tail(p), x)>>]
            [] h[1] = 5 -> [hs EXCEPT ![i] = <<5, h[2], Put(h[3], Tail(p), x)>>]

(* ------------------------------------------------------------ operations *)
Gone(in, h) == IF in.opt THEN Absent ELSE h
Bytes(h) == IF h = Absent THEN <<>> ELSE h[2]

Width(in) == IF in.k = "vec" THEN 10 ELSE 1     \* of one item in the representation
ItemOf(in, c) == IF in.k = "vec" THEN FromInt(c) ELSE <<c>>
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE Rep(x, n - 1) \o x

(* e: the call [k, x?, ...]; src: content of the source field or <<>>        *)
Scalar(in, h, e, src) ==
  CASE e.k = "set" -> {Some(e.x)}
    [] e.k = "from" -> IF src = Absent THEN {Gone(in, h)} ELSE {src}
    [] e.k = "omit" -> {Gone(in, h)}
    [] e.k = "clear" -> IF in.opt THEN {Absent} ELSE IF IsArr(in) THEN {Some(<<>>)} ELSE {h}
    \* (a mandatory string or vector without an initial value may keep what it has)
    [] e.k = "init" -> IF IsArr(in) /\ ~in.opt /\ in.init = Absent THEN {ToInitial(in), h} ELSE {ToInitial(in)}

Vector(in, h, e, src) ==
  LET w == Width(in)  s == Bytes(h)  n == Len(s) \div w
      same == IF h = Absent THEN {Absent, Some(<<>>)} ELSE {h}
      cut(a, b) == SubSeq(s, a * w + 1, b * w)
  IN
  CASE e.k = "app" -> IF e.x = <<>> THEN same ELSE {Some(s \o e.x)}
    [] e.k = "ins" -> IF e.x = <<>> THEN same ELSE {Some(cut(0, e.pos) \o e.x \o cut(e.pos, n))}
    [] e.k = "pop" -> IF n = 0 THEN {h} ELSE {Some(cut(0, n - 1))}
    [] e.k = "resize" -> {Some(IF e.n <= n THEN cut(0, e.n) ELSE s \o Rep(ItemOf(in, e.c), e.n - n))}
    [] e.k = "reserve" -> same
    [] e.k = "ref" -> {Some(e.x)}
    [] e.k = "repl" -> IF e.x = <<>> /\ n = 0 THEN same
                       ELSE {Some(cut(0, e.pos) \o e.x \o IF e.pos + e.n >= n THEN <<>> ELSE cut(e.pos + e.n, n))}
    [] e.k = "elem" -> {Some(cut(0, e.pos) \o e.x \o cut(e.pos + 1, n))}
    [] e.k = "read" -> {h}
    [] OTHER -> Scalar(in, h, e, src)

(* a constant exponent stays, the mantissa is scaled to it *)
RECURSIVE Scale(_, _)
Scale(m, k) == IF k = 0 THEN m ELSE IF k > 0 THEN Scale(MulSmall(m, 10, 0), k - 1)
               ELSE Scale(LET q == DivMod10(IF Neg(m) THEN Minus(m) ELSE m)[1] IN IF Neg(m) THEN Minus(q) ELSE q, k + 1)
ConstExp(in) == in.k = "sdec" /\ in.op = "constant"
Tidy(in, m, e) == IF ConstExp(in) THEN LET c == ToIntS(in.init[2]) IN Dec_(Scale(m, e - c), c) ELSE Normal(m, e)
(* text: either rejected, nothing changed, or read exactly *)
DecimalText(in, h, e) ==
  LET t == DecText(e.x)
      RECURSIVE Acc(_, _)
      Acc(k, a) == IF k > Len(t.num[2]) THEN a ELSE Acc(k + 1, MulSmall(a, 10, t.num[2][k]))
      m == Acc(1, Zero)
  IN IF e.rej THEN IF t.strict /\ t.fits THEN {} ELSE {h}
     ELSE IF ~t.form THEN {} ELSE {Some(Tidy(in, IF t.num[1] THEN Minus(m) ELSE m, t.num[3]))}
Decimal(in, h, e, src) ==
  CASE e.k = "asint" -> {Some(Tidy(in, e.x, 0))}
    [] e.k = "setm" -> {Some(SubSeq(h[2], 1, 10) \o e.x)}
    [] e.k = "sete" -> {Some(e.x \o MantOf(h[2]))}
    [] e.k = "norm" -> {Some(Tidy(in, MantOf(h[2]), ExpOf(h[2])))}
    [] e.k = "viaval" -> IF src = Absent THEN {h} ELSE {Some(Tidy(in, MantOf(src[2]), ExpOf(src[2])))}
    [] e.k = "text" -> DecimalText(in, h, e)
    [] e.k = "read" -> {h}
    [] OTHER -> Scalar(in, h, e, src)

Sequence_(in, h, e, src) ==
  LET fresh == NewAll(in.sub)
      grown(els, n) == [i \in 1..(IF n > Len(els) THEN n ELSE Len(els)) |-> IF i <= Len(els) THEN els[i] ELSE fresh]
  IN
  CASE e.k = "resize" -> {<<4, TRUE, e.n, grown(h[4], e.n)>>}
    [] e.k = "reserve" -> {h, <<4, TRUE, h[3], h[4]>>}
    [] e.k = "grow" -> {<<4, TRUE, h[3] + e.n, grown(h[4], h[3] + e.n)>>}
    [] e.k = "from" -> {Copy(src)}
    [] e.k = "omit" -> {IF in.opt THEN <<4, FALSE, 0, h[4]>> ELSE h}
    [] e.k = "clear" -> {IF in.opt THEN <<4, FALSE, 0, h[4]>> ELSE <<4, TRUE, 0, h[4]>>}
    [] e.k = "eas" -> {<<4, h[2], h[3], [h[4] EXCEPT ![e.pos + 1] = CopyAll(h[4][e.n + 1])]>>}
    [] e.k = "assign" ->
         LET m == src[3] - e.pos  g == grown(h[4], m)
         IN {<<4, TRUE, m, [i \in DOMAIN g |-> IF i <= m THEN CopyAll(src[4][e.pos + i]) ELSE g[i]]>>}
    [] e.k = "read" -> {h}

Group_(in, h, e, src) ==
  CASE e.k = "omit" -> {IF in.opt THEN <<3, FALSE, h[3]>> ELSE h}
    [] e.k = "touch" -> {<<3, TRUE, h[3]>>}
    [] e.k = "as" -> {<<3, TRUE, CopyAll(src[3])>>}

\* Binding a nested message to the template it already has keeps its content.
Nested(T, h, e) == {IF h[1] = 5 /\ h[2] = e.tid THEN h ELSE <<5, e.tid, NewAll(T[e.tid].sub)>>}

(* what may be there afterwards *)
After(T, in, h, e, src) ==
  CASE in.k \in {"dec", "sdec"} -> Decimal(in, h, e, src)
    [] IsArr(in) -> Vector(in, h, e, src)
    [] in.k = "seq" -> Sequence_(in, h, e, src)
    [] in.k = "grp" -> Group_(in, h, e, src)
    [] in.k = "nest" -> Nested(T, h, e)
    [] OTHER -> Scalar(in, h, e, src)

(* ------------------------------------------------------------ equality *)
(* of what fields show; the kinds of field have to agree                     *)
KindOf(in) == IF in.k = "vec" THEN "vec" \o in.et ELSE in.k
RECURSIVE SameF(_, _, _, _, _), SameAll(_, _, _, _, _)
SameAll(T, fs, gs, vs, ws) ==
  /\ Len(fs) = Len(gs)
  /\ \A i \in DOMAIN fs : SameF(T, fs[i], gs[i], vs[i], ws[i])
SameF(T, f, g, v, w) ==
  /\ KindOf(f) = KindOf(g)
  /\ (v = Absent) = (w = Absent)
  /\ v = Absent
     \/ CASE f.k = "grp" -> SameAll(T, f.sub, g.sub, v[2], w[2])
          [] f.k = "seq" -> Len(v[2]) = Len(w[2]) /\ \A i \in DOMAIN v[2] : SameAll(T, f.sub, g.sub, v[2][i], w[2][i])
          [] f.k = "nest" -> SameAll(T, T[v[2][1]].sub, T[w[2][1]].sub, v[2][2], w[2][2])
          [] OTHER -> v = w

(* lexicographic order of two byte strings: -1, 0, 1 *)
RECURSIVE Order(_, _, _)
Order(a, b, i) == IF i > Len(a) THEN IF i > Len(b) THEN 0 ELSE -1
                  ELSE IF i > Len(b) THEN 1
                  ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE Order(a, b, i + 1)
=============================================================================
