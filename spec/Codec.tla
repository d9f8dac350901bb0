-------------------------------- MODULE Codec --------------------------------
(* FAST coding of messages against operator dictionaries.                   *)
(*                                                                          *)
(* A dictionary maps keys to <<0>> undefined, <<1>> empty, <<2, value>>      *)
(* assigned; keys outside its domain are undefined.                         *)
(*                                                                          *)
(* Message values: <<0>> absent, <<1, x>> a scalar, <<3, <<f1, ..>>>> a     *)
(* group, <<4, <<elem1, ..>>>> a sequence (each element <<f1, ..>>),        *)
(* <<5, <<tid, <<f1, ..>>>>>> a nested message.                             *)
EXTENDS Templates

Undefined == <<0>>
EmptyVal == <<1>>
NoDict == <<>>
Get(d, k) == IF k \in DOMAIN d THEN d[k] ELSE Undefined
Put(d, k, e) == IF k \in DOMAIN d THEN [d EXCEPT ![k] = e] ELSE (k :> e) @@ d
Entry(v) == IF IsAbsent(v) THEN EmptyVal ELSE <<2, v[2]>>
SetPrev(s, in, v) == [s EXCEPT !.d = Put(@, in.key, Entry(v))]

Scalar(in) == CASE in.k \in {"enum", "set"} -> "u64" [] OTHER -> in.k
IsInt(t) == t \in {"i32", "u32", "i64", "u64", "exp"}
StrLike(t) == t \in {"asc", "uni", "bv"}

ReadScalar(s, in, nullable) ==
  LET t == Scalar(in)
  IN CASE IsInt(t) -> ReadInt(s, t, nullable)
       [] t = "asc" -> ReadAscii(s, nullable)
       [] t \in {"uni", "bv"} -> ReadBytes(s, nullable)
       [] t = "dec" -> ReadDec(s, nullable)
       [] t = "vec" -> ReadVec(s, in.et, nullable)
PutScalar(in, v, nullable) ==
  LET t == Scalar(in)
  IN CASE IsInt(t) -> PutInt(t, v, nullable)
       [] t = "asc" -> PutAscii(v, nullable)
       [] t \in {"uni", "bv"} -> PutBytes(v, nullable)
       [] t = "dec" -> PutDec(v, nullable)
       [] t = "vec" -> PutVec(v, in.et, nullable)
PutStr(in, x) == IF in.k = "asc" THEN PutAscii(Some(x), FALSE) ELSE PutBytes(Some(x), FALSE)

(* the value used as delta or tail base when the previous value is undefined *)
TypeDefault(in) == IF StrLike(in.k) THEN <<>> ELSE IF in.k = "dec" THEN Zero \o Zero ELSE Zero
BaseOf(d, in) ==
  LET p == Get(d, in.key)
  IN IF p[1] = 2 THEN p[2] ELSE IF IsAbsent(in.init) THEN TypeDefault(in) ELSE in.init[2]

(* ------------------------------------------------------------- decoding *)
DecDelta(s, in) ==
  LET t == Scalar(in)
      p == Get(s.d, in.key)
      base == BaseOf(s.d, in)
      done(r, x) == R(SetPrev(r.s, in, Some(x)), Some(x))
  IN
  IF IsInt(t) THEN
    LET r == ReadInt(s, "i64", in.opt)
    IN IF r.s.e # "" \/ IsAbsent(r.v) THEN r
       ELSE IF p = EmptyVal THEN Err(r.s, "D6")
       ELSE LET sum == Add(base, r.v[2])
                x == IF t \in {"u64", "i64"} THEN Wrap64(t, sum) ELSE sum
            IN IF ~InRange(t, x) THEN Err(r.s, "unspec.delta") ELSE done(r, x)
  ELSE IF t = "dec" THEN
    LET r == ReadInt(s, "i32", in.opt)
    IN IF r.s.e # "" \/ IsAbsent(r.v) THEN r
       ELSE LET m == ReadInt(r.s, "i64", FALSE)
            IN IF m.s.e # "" THEN m
               ELSE IF p = EmptyVal THEN Err(m.s, "D6")
               ELSE LET ex == Add(DecE(base), r.v[2])
                        ma == Wrap64("i64", Add(DecM(base), m.v[2]))
                    IN IF ~InRange("exp", ex) THEN Err(m.s, "unspec.exponent") ELSE done(m, ex \o ma)
  ELSE
    LET r == ReadInt(s, "i32", in.opt)
    IN IF r.s.e # "" \/ IsAbsent(r.v) THEN r
       ELSE LET a == IF in.k = "asc" THEN ReadAscii(r.s, FALSE) ELSE ReadBytes(r.s, FALSE)
            IN IF a.s.e # "" THEN a
               ELSE IF p = EmptyVal THEN Err(a.s, "D6")
               ELSE LET front == Neg(r.v[2])
                        cnt == IF front THEN Not(r.v[2]) ELSE r.v[2]
                    IN IF ~IsSmall(cnt) \/ ToInt(cnt) > Len(base) THEN Err(a.s, "D7")
                       ELSE LET n == ToInt(cnt)
                            IN done(a, IF front THEN a.v[2] \o SubSeq(base, n + 1, Len(base))
                                       ELSE SubSeq(base, 1, Len(base) - n) \o a.v[2])

ApplyTail(base, t) ==
  IF Len(t) >= Len(base) THEN t ELSE SubSeq(base, 1, Len(base) - Len(t)) \o t

DecTail(s, in) ==
  LET p == Get(s.d, in.key)  s1 == Next1(s)
  IN IF Bit(s) THEN
       LET r == ReadScalar(s1, in, in.opt)
       IN IF r.s.e # "" THEN r
          ELSE IF IsAbsent(r.v) THEN R(SetPrev(r.s, in, Absent), Absent)
          ELSE LET x == ApplyTail(BaseOf(s.d, in), r.v[2])
               IN R(SetPrev(r.s, in, Some(x)), Some(x))
     ELSE CASE p[1] = 2 -> R(s1, Some(p[2]))
            [] p = Undefined -> IF ~IsAbsent(in.init) THEN R(SetPrev(s1, in, in.init), in.init)
                                ELSE IF in.opt THEN R(SetPrev(s1, in, Absent), Absent)
                                ELSE Err(s1, "D6")
            [] p = EmptyVal -> IF in.opt THEN R(s1, Absent) ELSE Err(s1, "D7")

DecScalar(s, in) ==
  LET s1 == Next1(s)  p == Get(s.d, in.key)
  IN
  CASE in.op = "none" -> ReadScalar(s, in, in.opt)
    [] in.op = "constant" -> IF ~in.opt THEN R(s, in.init)
                             ELSE R(s1, IF Bit(s) THEN in.init ELSE Absent)
    [] in.op = "default" -> IF Bit(s) THEN ReadScalar(s1, in, in.opt) ELSE R(s1, in.init)
    [] in.op \in {"copy", "increment"} ->
         IF Bit(s) THEN
           LET r == ReadScalar(s1, in, in.opt)
           IN IF r.s.e # "" THEN r ELSE R(SetPrev(r.s, in, r.v), r.v)
         ELSE (CASE p[1] = 2 ->
                     IF in.op = "copy" THEN R(s1, Some(p[2]))
                     ELSE LET x == IncT(Scalar(in), p[2])
                          IN IF ~InRange(Scalar(in), x) THEN Err(s1, "unspec.increment")
                             ELSE R(SetPrev(s1, in, Some(x)), Some(x))
                [] p = Undefined ->
                     IF ~IsAbsent(in.init) THEN R(SetPrev(s1, in, in.init), in.init)
                     ELSE IF in.opt THEN R(SetPrev(s1, in, Absent), Absent)
                     ELSE Err(s1, "D5")
                [] p = EmptyVal -> IF in.opt THEN R(s1, Absent) ELSE Err(s1, "D6"))
    [] in.op = "delta" -> DecDelta(s, in)
    [] in.op = "tail" -> DecTail(s, in)

DecSplit(s, in) ==
  LET e == DecScalar(s, [in EXCEPT !.k = "exp"])
  IN IF e.s.e # "" \/ IsAbsent(e.v) THEN e
     ELSE LET m == DecScalar(e.s, in.ma[1])
          IN IF m.s.e # "" THEN m ELSE R(m.s, Some(e.v[2] \o m.v[2]))

MaxElems == 3000
SavePmap(s) == <<s.pm, s.pk>>
RestorePmap(s, sv) == [s EXCEPT !.pm = sv[1], !.pk = sv[2]]

RECURSIVE DecFields(_, _, _, _, _), DecField(_, _, _), DecElems(_, _, _, _, _), DecMsg(_, _)

DecFields(env, f, i, s, acc) ==
  IF s.e # "" THEN R(s, Absent)
  ELSE IF i > Len(f) THEN R(s, acc)
  ELSE LET r == DecField(env, s, f[i])
       IN DecFields(env, f, i + 1, r.s, Append(acc, r.v))

(* a segment with its own presence map when it needs one                    *)
DecSegment(env, s, in) ==
  IF ~in.pm THEN DecFields(env, in.sub, 1, s, <<>>)
  ELSE LET p == ReadPmap(s)
       IN IF p.s.e # "" THEN p
          ELSE LET r == DecFields(env, in.sub, 1, p.s, <<>>)
               IN R(RestorePmap(r.s, SavePmap(s)), r.v)

DecElems(env, s, in, n, acc) ==
  IF n = 0 THEN R(s, <<4, acc>>)
  ELSE LET r == DecSegment(env, s, in)
       IN IF r.s.e # "" THEN R(r.s, Absent) ELSE DecElems(env, r.s, in, n - 1, Append(acc, r.v))

DecField(env, s, in) ==
  CASE in.k = "sdec" -> DecSplit(s, in)
    [] in.k = "grp" ->
         IF in.opt /\ ~Bit(s) THEN R(Next1(s), Absent)
         ELSE LET r == DecSegment(env, IF in.opt THEN Next1(s) ELSE s, in)
              IN IF r.s.e # "" THEN r ELSE R(r.s, <<3, r.v>>)
    [] in.k = "seq" ->
         LET l == DecScalar(s, in.len[1])
         IN IF l.s.e # "" \/ IsAbsent(l.v) THEN l
            ELSE IF ~IsSmall(l.v[2]) \/ ToInt(l.v[2]) > MaxElems THEN Err(l.s, "unspec.length")
            ELSE DecElems(env, l.s, in, ToInt(l.v[2]), <<>>)
    [] in.k = "nest" ->
         LET sv == SavePmap(s)  act == s.a
             r == DecMsg(env, s)
         IN IF r.s.e # "" THEN r ELSE R([RestorePmap(r.s, sv) EXCEPT !.a = act], <<5, r.v>>)
    [] OTHER -> DecScalar(s, in)

(* a whole message or nested message: presence map, template id, fields.    *)
(* s.a = 0: no active template; -1: not known to the specification          *)
DecMsg(env, s) ==
  LET p == ReadPmap(s)
  IN IF p.s.e # "" THEN p
     ELSE LET s1 == Next1(p.s)
              t == IF Bit(p.s) THEN ReadInt(s1, "u32", FALSE) ELSE R(s1, Some(Zero))
          IN IF t.s.e # "" THEN t
             ELSE IF ~Bit(p.s) /\ s.a = -1 THEN Err(t.s, "unspec.template")
             ELSE LET big == Bit(p.s) /\ ~IsSmall(t.v[2])
                      id == IF Bit(p.s) THEN IF big THEN -7 ELSE ToInt(t.v[2]) ELSE s.a
                  IN IF id \notin DOMAIN env.t THEN Err(t.s, "D9")
                     ELSE LET tm == env.t[id]
                              s2 == [t.s EXCEPT !.a = id, !.d = IF tm.opt THEN NoDict ELSE @]
                              r == DecFields(env, tm.sub, 1, s2, <<>>)
                          IN IF r.s.e # "" THEN r ELSE R(r.s, <<id, r.v>>)

(* decode from the bytes b with coder state c = [d |-> dict, a |-> active]   *)
Decode(env, b, c) == DecMsg(env, [b |-> b, i |-> 1, e |-> "", lx |-> FALSE, pm |-> <<>>, pk |-> 1, d |-> c.d, a |-> c.a])

(* ------------------------------------------------------------- encoding *)
(* The canonical (shortest) encoding. w: [o bytes, p presence bits,          *)
(* z presence bits set aside but unused (the mantissa of an absent decimal), *)
(* d dictionary, a active, x spare bytes (see delta strings), y room for map *)
(* bytes that are dropped in the end, e error,                               *)
(* rf an encoder may refuse the message with D6 (a mandatory copy or         *)
(* increment field whose previous value another field has left empty)]       *)
Out(w, bytes) == [w EXCEPT !.o = @ \o bytes]
PBit(w, n) == [w EXCEPT !.p = Append(@, n)]
FullP(w) == w.p \o [j \in 1..w.z |-> 0]
Pmap(w) == PutPmap(FullP(w), w.ov)
\* an encoder sets aside room for the whole map before it drops the trailing bytes
Dropped(w) == Len(PutPmap(FullP(w), TRUE)) - Len(Pmap(w))
WPrev(w, in, v) == [w EXCEPT !.d = Put(@, in.key, Entry(v))]

RECURSIVE CommonPre(_, _, _), CommonSuf(_, _, _)
CommonPre(a, b, n) == IF n < Len(a) /\ n < Len(b) /\ a[n+1] = b[n+1] THEN CommonPre(a, b, n + 1) ELSE n
CommonSuf(a, b, n) == IF n < Len(a) /\ n < Len(b) /\ a[Len(a)-n] = b[Len(b)-n] THEN CommonSuf(a, b, n + 1) ELSE n

EncDelta(w, in, v) ==
  LET t == Scalar(in)  base == BaseOf(w.d, in)
  IN IF IsAbsent(v) THEN Out(w, <<128>>)
     ELSE IF Get(w.d, in.key) = EmptyVal THEN [w EXCEPT !.e = "D6"]
     ELSE LET x == v[2]  w1 == WPrev(w, in, v)
     IN
     IF IsInt(t) THEN
       LET df == Sub(x, base)
       IN Out(w1, PutInt("i64", Some(IF t \in {"i64", "u64"} THEN Wrap64("i64", df) ELSE df), in.opt))
     ELSE IF t = "dec" THEN
       Out(w1, PutInt("i32", Some(Sub(DecE(x), DecE(base))), in.opt)
               \o PutInt("i64", Some(Wrap64("i64", Sub(DecM(x), DecM(base)))), FALSE))
     ELSE
       LET pre == CommonPre(base, x, 0)  suf == CommonSuf(base, x, 0)
           bk == PutInt("i32", Some(FromInt(Len(base) - pre)), in.opt) \o PutStr(in, SubSeq(x, pre + 1, Len(x)))
           fr == PutInt("i32", Some(Not(FromInt(Len(base) - suf))), in.opt) \o PutStr(in, SubSeq(x, 1, Len(x) - suf))
           useFront == Len(fr) < Len(bk)
           mn == IF useFront THEN fr ELSE bk
           \* a tie in characters saved may be broken either way
           tie == IF pre = suf THEN (IF Len(fr) > Len(bk) THEN Len(fr) - Len(bk) ELSE Len(bk) - Len(fr))
                  ELSE IF (pre > suf) = useFront THEN (IF useFront THEN Len(bk) - Len(fr) ELSE Len(fr) - Len(bk)) ELSE 0
       IN [Out(w1, mn) EXCEPT !.x = @ + tie]

EncScalar(w, in, v) ==
  LET p == Get(w.d, in.key)
      send(n) == Out(PBit(n, 1), PutScalar(in, v, in.opt))
      refusable(n) == IF p = EmptyVal /\ ~in.opt THEN [n EXCEPT !.rf = TRUE] ELSE n
  IN
  CASE in.op = "none" -> Out(w, PutScalar(in, v, in.opt))
    [] in.op = "constant" -> IF in.opt THEN PBit(w, IF IsAbsent(v) THEN 0 ELSE 1) ELSE w
    [] in.op = "default" -> IF v = in.init THEN PBit(w, 0) ELSE send(w)
    [] in.op = "copy" ->
         IF p[1] = 2 /\ v = Some(p[2]) THEN PBit(w, 0)
         ELSE IF p = Undefined /\ v = in.init /\ (in.opt \/ ~IsAbsent(v)) THEN PBit(WPrev(w, in, v), 0)
         ELSE IF p = EmptyVal /\ IsAbsent(v) THEN PBit(w, 0)
         ELSE WPrev(refusable(send(w)), in, v)
    [] in.op = "increment" ->
         IF p[1] = 2 /\ ~IsAbsent(v) /\ v[2] = IncT(Scalar(in), p[2]) THEN WPrev(PBit(w, 0), in, v)
         ELSE IF p = Undefined /\ v = in.init /\ (in.opt \/ ~IsAbsent(v)) THEN PBit(WPrev(w, in, v), 0)
         ELSE IF p = EmptyVal /\ IsAbsent(v) THEN PBit(w, 0)
         ELSE WPrev(refusable(send(w)), in, v)
    [] in.op = "delta" -> EncDelta(w, in, v)
    [] in.op = "tail" ->
         IF p[1] = 2 /\ v = Some(p[2]) THEN PBit(w, 0)
         ELSE IF p = Undefined /\ v = in.init /\ (in.opt \/ ~IsAbsent(v)) THEN PBit(WPrev(w, in, v), 0)
         ELSE IF p = EmptyVal /\ IsAbsent(v) THEN PBit(w, 0)
         ELSE IF IsAbsent(v) THEN WPrev(send(w), in, v)
         ELSE LET b == BaseOf(w.d, in)
                  t == IF Len(v[2]) # Len(b) THEN v[2]
                       ELSE SubSeq(v[2], CommonPre(b, v[2], 0) + 1, Len(v[2]))
              IN IF Len(v[2]) < Len(b) THEN [w EXCEPT !.e = "D3"]
                 ELSE WPrev(Out(PBit(w, 1), PutScalar(in, Some(t), in.opt)), in, v)

EncSplit(w, in, v) ==
  LET e == EncScalar(w, [in EXCEPT !.k = "exp"], IF IsAbsent(v) THEN v ELSE Some(DecE(v[2])))
  IN IF IsAbsent(v) THEN (IF in.ma[1].bits = 1 THEN [e EXCEPT !.z = @ + 1] ELSE e)
     ELSE EncScalar(e, in.ma[1], Some(DecM(v[2])))

RECURSIVE EncFields(_, _, _, _, _), EncField(_, _, _, _), EncElems(_, _, _, _, _), EncMsg(_, _, _)
EncFields(env, f, vs, i, w) ==
  IF w.e # "" \/ i > Len(f) THEN w ELSE EncFields(env, f, vs, i + 1, EncField(env, w, f[i], vs[i]))

EncSegment(env, w, in, vs) ==
  IF ~in.pm THEN EncFields(env, in.sub, vs, 1, w)
  ELSE LET r == EncFields(env, in.sub, vs, 1, [w EXCEPT !.o = <<>>, !.p = <<>>, !.z = 0])
       IN [r EXCEPT !.o = w.o \o Pmap(r) \o r.o, !.p = w.p, !.z = w.z, !.y = @ + Dropped(r)]
EncElems(env, w, in, es, i) ==
  IF w.e # "" \/ i > Len(es) THEN w ELSE EncElems(env, EncSegment(env, w, in, es[i]), in, es, i + 1)

EncField(env, w, in, v) ==
  CASE in.k = "sdec" -> EncSplit(w, in, v)
    [] in.k = "grp" -> IF in.opt THEN IF IsAbsent(v) THEN PBit(w, 0) ELSE EncSegment(env, PBit(w, 1), in, v[2])
                       ELSE EncSegment(env, w, in, v[2])
    [] in.k = "seq" ->
         LET l == EncScalar(w, in.len[1], IF IsAbsent(v) THEN v ELSE Some(FromInt(Len(v[2]))))
         IN IF IsAbsent(v) THEN l ELSE EncElems(env, l, in, v[2], 1)
    [] in.k = "nest" ->
         LET r == EncMsg(env, [w EXCEPT !.o = <<>>, !.p = <<>>, !.z = 0], v[2])
         IN [r EXCEPT !.o = w.o \o @, !.p = w.p, !.z = w.z, !.a = w.a]
    [] OTHER -> EncScalar(w, in, v)

(* m = <<tid, fields>> *)
EncMsg(env, w, m) ==
  LET tm == env.t[m[1]]
      w0 == [w EXCEPT !.p = <<IF w.a = m[1] THEN 0 ELSE 1>>, !.o = <<>>, !.a = m[1],
                      !.d = IF tm.opt THEN NoDict ELSE @]
      w1 == IF w.a = m[1] THEN w0 ELSE Out(w0, PutInt("u32", Some(FromInt(m[1])), FALSE))
      r == EncFields(env, tm.sub, m[2], 1, w1)
  IN [r EXCEPT !.o = Pmap(r) \o @, !.y = @ + Dropped(r)]

(* the shape of a message value agrees with its template                    *)
RECURSIVE ShapeF(_, _, _), ShapeV(_, _, _)
ShapeF(env, f, vs) == Len(vs) = Len(f) /\ \A i \in DOMAIN f : ShapeV(env, f[i], vs[i])
ShapeV(env, in, v) ==
  CASE in.k = "grp" -> (v[1] = 0 /\ in.opt) \/ (v[1] = 3 /\ ShapeF(env, in.sub, v[2]))
    [] in.k = "seq" -> (v[1] = 0 /\ in.opt) \/ (v[1] = 4 /\ \A i \in DOMAIN v[2] : ShapeF(env, in.sub, v[2][i]))
    [] in.k = "nest" -> v[1] = 5 /\ v[2][1] \in DOMAIN env.t /\ ShapeF(env, env.t[v[2][1]].sub, v[2][2])
    [] OTHER -> (v[1] = 0 /\ in.opt) \/ v[1] = 1
Shape(env, m) == m[1] \in DOMAIN env.t /\ ShapeF(env, env.t[m[1]].sub, m[2])

Encode(env, m, c, ov) ==
  EncMsg(env, [o |-> <<>>, p |-> <<>>, d |-> c.d, a |-> c.a, x |-> 0, y |-> 0, z |-> 0,
               rf |-> FALSE, e |-> "", ov |-> ov], m)
=============================================================================
