------------------------------ MODULE Templates ------------------------------
(* From template documents (XML trees) to field instructions, and from the  *)
(* set of documents given to a coder to dictionary keys.                    *)
(*                                                                          *)
(* A node is [t |-> tag, a |-> attributes (strings; id, the value of an      *)
(*            element and a mfast:tag are numbers), c |-> children] and,    *)
(*            when a "value" attribute is present, v |-> its characters;    *)
(*            when its id is any text, i |-> its characters; when its       *)
(*            mfast:tag is a list of names, g |-> these names.              *)
EXTENDS Wire

At(n, k, dflt) == IF k \in DOMAIN n.a THEN n.a[k] ELSE dflt
Has(n, k) == k \in DOMAIN n.a
Child(n, tag) == LET S == {i \in DOMAIN n.c : n.c[i].t = tag}
                 IN IF S = {} THEN <<>> ELSE <<n.c[CHOOSE i \in S : \A j \in S : i <= j]>>
OpNames == {"constant", "default", "copy", "increment", "delta", "tail"}
OpChild(n) == LET S == {i \in DOMAIN n.c : n.c[i].t \in OpNames}
              IN IF S = {} THEN <<>> ELSE <<n.c[CHOOSE i \in S : \A j \in S : i <= j]>>

(* ------------------------------------------------------------ prototypes *)
Proto(k) == [k |-> k, nm |-> "", ns |-> "", id |-> 0, opt |-> FALSE, op |-> "none",
             init |-> Absent, ck |-> "", cn |-> "", cd |-> "", sub |-> <<>>, dic |-> "",
             tn |-> "", tns |-> "", et |-> "", els |-> <<>>, els_v |-> <<>>, len |-> <<>>,
             ma |-> <<>>, key |-> <<>>, pm |-> FALSE, bits |-> 0,
             lid |-> 0, lnm |-> "", lns |-> "", tag |-> 0]
Primitive ==
  [int32 |-> Proto("i32"), uInt32 |-> Proto("u32"), int64 |-> Proto("i64"),
   uInt64 |-> Proto("u64"), timestamp |-> Proto("i64"), decimal |-> Proto("dec"),
   string |-> Proto("asc"), byteVector |-> Proto("bv"),
   int32Vector |-> [Proto("vec") EXCEPT !.et = "i32"],
   uInt32Vector |-> [Proto("vec") EXCEPT !.et = "u32"],
   int64Vector |-> [Proto("vec") EXCEPT !.et = "i64"],
   uInt64Vector |-> [Proto("vec") EXCEPT !.et = "u64"],
   group |-> Proto("grp"), sequence |-> Proto("seq"), template |-> Proto("tmpl"),
   boolean |-> [Proto("enum") EXCEPT !.els = <<"false", "true">>, !.els_v = <<0, 1>>],
   enum |-> Proto("enum"), set |-> Proto("set")]

LengthProto == [Proto("u32") EXCEPT !.nm = "__length__"]

(* ------------------------------------------------------------ initial values *)
HexDigit(c) == IF c >= 48 /\ c <= 57 THEN c - 48
               ELSE IF c >= 65 /\ c <= 70 THEN c - 55
               ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
HexStrip(s) == SelectSeq(s, LAMBDA c : c # 32 /\ c # 45)
HexOk(s) == LET h == HexStrip(s) IN Len(h) % 2 = 0 /\ \A i \in DOMAIN h : HexDigit(h[i]) >= 0
HexBytes(s) == LET h == HexStrip(s) IN [i \in 1..(Len(h) \div 2) |-> 16 * HexDigit(h[2*i-1]) + HexDigit(h[2*i])]

(* "ok" flag and value of an initial value text for kind k                  *)
InitOf(p, opn) ==
  IF "v" \notin DOMAIN opn THEN [ok |-> TRUE, v |-> p.init]
  ELSE LET s == opn.v
           num(t) == IF ParseOk(s) /\ InRange(t, Parse(s)) THEN [ok |-> TRUE, v |-> Some(Parse(s))]
                     ELSE [ok |-> FALSE, v |-> Absent]
       IN CASE p.k \in {"i32", "u32", "i64", "u64"} -> num(p.k)
            [] p.k = "exp" -> num("exp")
            [] p.k = "dec" ->
                 LET D == {i \in DOMAIN s : s[i] = 46}
                     dot == IF D = {} THEN Len(s) + 1 ELSE CHOOSE i \in D : \A j \in D : i <= j
                     whole == SubSeq(s, 1, dot - 1)
                     frac == SubSeq(s, dot + 1, Len(s))
                     all == whole \o frac
                 IN IF ParseOk(whole) /\ (D = {} \/ AllDigits(frac, 1)) /\ InRange("i64", Parse(all))
                    THEN [ok |-> TRUE, v |-> Some(FromInt(-Len(frac)) \o Parse(all))]
                    ELSE [ok |-> FALSE, v |-> Absent]
            [] p.k \in {"asc", "uni"} -> [ok |-> TRUE, v |-> Some(s)]
            [] p.k = "bv" -> IF HexOk(s) THEN [ok |-> TRUE, v |-> Some(HexBytes(s))]
                             ELSE [ok |-> FALSE, v |-> Absent]
            [] p.k = "enum" ->
                 LET S == {i \in DOMAIN p.els : p.els[i] = opn.a.value}
                     N == {i \in DOMAIN p.els : AllDigits(s, 1) /\ Parse(s) = FromInt(p.els_v[i])}
                     A == S \cup N
                 IN IF A = {} THEN [ok |-> FALSE, v |-> Absent]
                    ELSE [ok |-> TRUE, v |-> Some(FromInt(p.els_v[CHOOSE i \in A : \A j \in A : i <= j]))]
            [] p.k = "set" ->
                 LET S == {i \in DOMAIN p.els : p.els[i] = opn.a.value}
                 IN IF S = {} THEN IF AllDigits(s, 1) /\ InRange("u64", Parse(s)) THEN [ok |-> TRUE, v |-> Some(Parse(s))]
                                   ELSE [ok |-> FALSE, v |-> Absent]
                    ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j
                         IN [ok |-> TRUE, v |-> Some([j \in 1..10 |->
                               IF j = ((i - 1) \div 7) + 1 THEN 2 ^ ((i - 1) % 7) ELSE 0])]

(* the operator element of node n applied to prototype p                    *)
WithOp(p, n) ==
  LET o == OpChild(n)
  IN IF o = <<>> THEN [ok |-> TRUE, p |-> p]
     ELSE LET x == o[1]  i == InitOf(p, x)
          IN [ok |-> i.ok,
              p |-> [p EXCEPT !.op = x.t, !.init = i.v, !.ck = At(x, "key", p.ck),
                              !.cn = At(x, "ns", p.cn), !.cd = At(x, "dictionary", p.cd)]]

(* the names and the values of the elements of an enum or set: the value     *)
(* of an element without one is that after the one before                    *)
ElName(x) == IF Has(x, "id") THEN x.a.id ELSE x.a.name
RECURSIVE ElValues(_, _, _)
ElValues(es, i, acc) ==
  IF i > Len(es) THEN acc
  ELSE ElValues(es, i + 1, Append(acc, IF Has(es[i], "value") THEN es[i].a.value
                                       ELSE IF i = 1 THEN 0 ELSE acc[i - 1] + 1))
Increasing(vs) == \A i \in DOMAIN vs : i > 1 => vs[i] > vs[i - 1]

RECURSIVE BitOr(_, _)
BitOr(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
               ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + (2 * BitOr(a \div 2, b \div 2))

(* ------------------------------------------------------------ static errors *)
(* the FAST static error of an operator with field type k                     *)
OpErrorOf(k, op, opt, init) ==
  IF op = "increment" /\ k \notin {"i32", "u32", "i64", "u64", "enum", "set", "exp"} THEN "S2"
  ELSE IF op = "tail" /\ k \notin {"asc", "uni", "bv"} THEN "S2"
  ELSE IF op = "constant" /\ init = Absent THEN "S4"
  ELSE IF op = "default" /\ ~opt /\ init = Absent THEN "S5" ELSE ""
OpError(p) ==
  CASE p.k = "sdec" -> LET x == OpErrorOf("exp", p.op, p.opt, p.init)
                       IN IF x # "" THEN x ELSE OpErrorOf("i64", p.ma[1].op, FALSE, p.ma[1].init)
    [] p.k = "seq" -> IF p.len = <<>> THEN ""
                      ELSE OpErrorOf("u32", p.len[1].op, p.len[1].opt, p.len[1].init)
    [] p.k \in {"grp", "nest", "vec", "tmpl"} -> ""
    [] OTHER -> OpErrorOf(p.k, p.op, p.opt, p.init)

(* ------------------------------------------------------------ documents     *)
(* A build context: [e error, loc local types (name -> instruction),        *)
(*  reg registry (<<ns, name>> -> instruction or template),                 *)
(*  tns namespace of template names]                                        *)
Bad(c, e) == [c EXCEPT !.e = e]

(* id of a node, if it has a proper one                                      *)
IdOk(n) == "i" \in DOMAIN n => AllDigits(n.i, 1) /\ InRange("u32", Parse(n.i))
IdOf(n, d) == IF ~IdOk(n) THEN 0 ELSE IF "i" \in DOMAIN n THEN ToInt(Parse(n.i)) ELSE At(n, "id", d)

(* the tag made of the named elements of the enum type mfast:tag: no tag    *)
(* without such a type, -1 when it does not have all of the names           *)
RECURSIVE TagOf(_, _, _)
TagOf(p, g, i) ==
  IF i > Len(g) THEN 0
  ELSE LET S == {j \in DOMAIN p.els : p.els[j] = g[i]}
           r == TagOf(p, g, i + 1)
       IN IF S = {} \/ r < 0 THEN -1 ELSE BitOr(p.els_v[CHOOSE j \in S : \A k \in S : j <= k], r)
NamedTag(c, g) ==
  IF "mfast:tag" \notin DOMAIN c.loc THEN 0 ELSE TagOf(c.loc["mfast:tag"], g, 1)

RECURSIVE BuildField(_, _, _), BuildFields(_, _, _, _)

BuildFields(c, ch, i, acc) ==
  IF c.e # "" \/ i > Len(ch) THEN [c |-> c, f |-> acc]
  ELSE LET r == BuildField(c, ch[i], "")
           E == {j \in DOMAIN r.f : OpError(r.f[j]) # ""}
           c1 == IF r.c.e # "" \/ E = {} THEN r.c
                 ELSE Bad(r.c, OpError(r.f[CHOOSE j \in E : \A k \in E : j <= k]))
       IN BuildFields(c1, ch, i + 1, acc \o r.f)

Rng(f) == {f[i] : i \in DOMAIN f}

BuildField(c, n, defname) ==
  LET isf == n.t = "field"
      inner == IF isf /\ Len(n.c) > 0 THEN n.c[1] ELSE n
      isType == isf /\ inner.t = "type"
      tyname == IF isType THEN At(inner, "name", "") ELSE inner.t
      pick(k, d) == IF isf /\ Has(inner, k) THEN inner.a[k] ELSE At(n, k, d)
      name == IF isType \/ ~Has(inner, "name")
              THEN IF Has(n, "name") /\ defname = "" THEN n.a.name ELSE defname
              ELSE IF defname # "" /\ ~isf THEN defname ELSE inner.a.name
      mytns == pick("templateNs", c.tns)
      content == inner
      sub(tag) == IF Child(n, tag) # <<>> THEN Child(n, tag) ELSE Child(content, tag)
      opn == IF OpChild(n) # <<>> THEN n ELSE content
      nothing == [c |-> c, f |-> <<>>]
      fail(e) == [c |-> Bad(c, e), f |-> <<>>]
  IN
  IF isf /\ Len(n.c) = 0 THEN fail("xml")
  ELSE IF isType /\ ~Has(inner, "name") THEN fail("xml")
  ELSE IF tyname \in {"typeRef", "length"} THEN nothing
  ELSE IF tyname = "templateRef" THEN
       IF Has(n, "name")
       THEN LET key == <<At(n, "templateNs", c.tns), n.a.name>>
            IN IF key \notin DOMAIN c.reg THEN fail("D8")
               ELSE [c |-> c, f |-> c.reg[key].sub]
       ELSE IF "g" \in DOMAIN n /\ NamedTag(c, n.g) < 0 THEN fail("tag")
       ELSE [c |-> c, f |-> <<[Proto("nest") EXCEPT !.tag = IF "g" \in DOMAIN n THEN NamedTag(c, n.g) ELSE At(n, "mfast:tag", 0)]>>]
  ELSE
  LET uni == tyname = "string" /\ pick("charset", "ascii") = "unicode"
      hasns == Has(n, "ns") \/ (isf /\ Has(inner, "ns"))
      rkey == <<pick("ns", ""), tyname>>
      inreg == hasns /\ rkey \in DOMAIN c.reg
      inloc == ~(isType /\ Has(inner, "ns")) /\ tyname \in DOMAIN c.loc
      p0 == IF uni THEN Proto("uni") ELSE IF inreg THEN c.reg[rkey] ELSE c.loc[tyname]
      known == inreg \/ inloc
  IN IF ~uni /\ ~known THEN fail("S1")
     ELSE
     LET p1 == [p0 EXCEPT !.nm = name, !.ns = pick("ns", p0.ns),
                          !.opt = IF Has(n, "presence") \/ (isf /\ Has(inner, "presence"))
                                  THEN pick("presence", "") = "optional" ELSE p0.opt,
                          !.id = IF isf /\ (Has(inner, "id") \/ "i" \in DOMAIN inner) THEN IdOf(inner, 0) ELSE IdOf(n, p0.id),
                          !.tag = IF "g" \in DOMAIN n THEN IF NamedTag(c, n.g) < 0 THEN @ ELSE BitOr(@, NamedTag(c, n.g)) ELSE BitOr(@, pick("mfast:tag", 0))]
         le0 == sub("length")
         plen == IF le0 = <<>> THEN p1
                 ELSE [p1 EXCEPT !.lid = IdOf(le0[1], @), !.lnm = At(le0[1], "name", @), !.lns = At(le0[1], "ns", @)]
     IN
     IF ~IdOk(n) \/ ~IdOk(inner) \/ (p1.k \in {"uni", "bv"} /\ le0 # <<>> /\ ~IdOk(le0[1])) THEN fail("value")
     ELSE IF "g" \in DOMAIN n /\ NamedTag(c, n.g) < 0 THEN fail("tag")
     ELSE
     CASE p1.k \in {"i32", "u32", "i64", "u64", "asc", "uni", "bv"} ->
            LET w == WithOp(IF p1.k \in {"uni", "bv"} THEN plen ELSE p1, opn) IN IF w.ok THEN [c |-> c, f |-> <<w.p>>] ELSE fail("value")
       [] p1.k = "vec" -> [c |-> c, f |-> <<p1>>]
       [] p1.k \in {"dec", "sdec"} ->
            LET me == sub("mantissa")  ee == sub("exponent")
            IN IF p1.k = "dec" /\ me = <<>> /\ ee = <<>>
               THEN LET w == WithOp(p1, opn) IN IF w.ok THEN [c |-> c, f |-> <<w.p>>] ELSE fail("value")
               ELSE LET m0 == IF p1.k = "sdec" THEN p1.ma[1] ELSE Proto("i64")
                        mw == IF me = <<>> THEN [ok |-> TRUE, p |-> m0] ELSE WithOp(m0, me[1])
                        x0 == [p1 EXCEPT !.k = "exp",   \* the exponent of the initial value of a type
                                         !.init = IF p1.k = "sdec" \/ @ = Absent THEN @ ELSE Some(SubSeq(@[2], 1, 10))]
                        xw == IF ee = <<>> THEN [ok |-> TRUE, p |-> x0] ELSE WithOp(x0, ee[1])
                    IN IF ~mw.ok THEN fail("value")
                       ELSE IF ~xw.ok THEN fail("D11")
                       ELSE [c |-> c, f |-> <<[xw.p EXCEPT !.k = "sdec", !.ma = <<mw.p>>]>>]
       [] p1.k = "enum" ->
            LET es == SelectSeq(content.c, LAMBDA x : x.t = "element")
                vs == ElValues(es, 1, <<>>)
                p2 == IF p1.els # <<>> THEN p1
                      ELSE [p1 EXCEPT !.els = [i \in DOMAIN es |-> ElName(es[i])], !.els_v = vs]
                w == WithOp(p2, opn)
            IN IF p1.els = <<>> /\ ~Increasing(vs) THEN fail("value")
               ELSE IF w.ok THEN [c |-> c, f |-> <<w.p>>] ELSE fail("value")
       [] p1.k = "set" ->
            LET es == SelectSeq(content.c, LAMBDA x : x.t = "element")
                p2 == IF p1.els # <<>> THEN p1
                      ELSE [p1 EXCEPT !.els = [i \in DOMAIN es |-> ElName(es[i])]]
                w == WithOp(p2, opn)
            IN IF w.ok THEN [c |-> c, f |-> <<w.p>>] ELSE fail("value")
       [] p1.k \in {"grp", "seq"} ->
            LET b == IF p1.sub # <<>> THEN [c |-> c, f |-> p1.sub]
                     ELSE BuildFields([c EXCEPT !.tns = mytns], content.c, 1, <<>>)
                tr == Child(content, "typeRef")
                le == Child(content, "length")
                l0 == IF p1.len # <<>> THEN p1.len[1] ELSE LengthProto
                l1 == IF le = <<>> THEN [ok |-> TRUE, p |-> l0]
                      ELSE WithOp([l0 EXCEPT !.nm = At(le[1], "name", ""), !.id = IdOf(le[1], @),
                                             !.ns = At(le[1], "ns", l0.ns)], le[1])
                l2 == [l1.p EXCEPT !.opt = p1.opt]
            IN IF b.c.e # "" THEN b
               ELSE IF p1.k = "seq" /\ (~l1.ok \/ (le # <<>> /\ ~IdOk(le[1]))) THEN fail("value")
               ELSE [c |-> c,
                     f |-> <<[p1 EXCEPT !.sub = b.f, !.dic = pick("dictionary", p1.dic),
                                        !.tn = IF tr = <<>> THEN @ ELSE At(tr[1], "name", ""),
                                        !.tns = IF tr = <<>> THEN @ ELSE At(tr[1], "ns", ""),
                                        !.len = IF p1.k = "seq" THEN <<l2>> ELSE <<>>]>>]
       [] OTHER -> fail("S1")

(* one child of <templates> *)
BuildTop(c, n) ==
  IF n.t = "define" THEN
    IF Has(n, "name") /\ Len(n.c) > 0
    THEN LET r == BuildField(c, n.c[1], n.a.name)
         IN IF r.c.e # "" THEN r.c
            ELSE LET i == r.f[1]
                     c1 == [c EXCEPT !.loc = (i.nm :> i) @@ @]
                     ns == IF i.ns = "" THEN c.tns ELSE i.ns   \* types are registered among the templates
                 IN IF i.k \in {"grp", "seq", "enum", "set"} THEN [c1 EXCEPT !.reg = (<<ns, i.nm>> :> i) @@ @] ELSE c1
    ELSE c
  ELSE IF n.t = "template" THEN
    LET mytns == At(n, "templateNs", c.tns)
        b == BuildFields([c EXCEPT !.tns = mytns], n.c, 1, <<>>)
        tr == Child(n, "typeRef")
        rst == At(n, "scp:reset", At(n, "reset", "no")) \in {"true", "yes"}
        t == [Proto("tmpl") EXCEPT !.nm = At(n, "name", ""), !.ns = At(n, "ns", ""), !.id = IdOf(n, 0),
                                   !.lns = At(n, "templateNs", ""),
                                   !.sub = b.f, !.dic = At(n, "dictionary", ""),
                                   !.tn = IF tr = <<>> THEN "" ELSE At(tr[1], "name", ""),
                                   !.tns = IF tr = <<>> THEN "" ELSE At(tr[1], "ns", ""),
                                   !.opt = rst,
                                   !.tag = IF "g" \in DOMAIN n THEN NamedTag(c, n.g) ELSE At(n, "mfast:tag", 0)]
    IN IF ~IdOk(n) THEN Bad(c, "value")
       ELSE IF t.tag < 0 THEN Bad(c, "tag")
       ELSE IF b.c.e # "" THEN Bad(c, b.c.e)
       ELSE [c EXCEPT !.reg = (<<mytns, t.nm>> :> t) @@ @, !.ts = Append(@, t)]
  ELSE c

RECURSIVE BuildTops(_, _, _)
BuildTops(c, ch, i) == IF c.e # "" \/ i > Len(ch) THEN c ELSE BuildTops(BuildTop(c, ch[i]), ch, i + 1)

(* a document: [e, dic, tns, ts, reg]; reg carries over to later documents. *)
(* Its root is <templates> or a single <template>.                          *)
BuildDoc(reg, n) ==
  LET c0 == [e |-> "", loc |-> Primitive, reg |-> reg, tns |-> "", ts |-> <<>>, ns |-> "", base |-> "", dic |-> ""]
  IN IF n.t = "template" THEN BuildTop(c0, n)
     ELSE IF n.t = "templates"
     THEN BuildTops([c0 EXCEPT !.tns = At(n, "templateNs", ""), !.base = At(n, "templateNs", ""),
                               !.ns = At(n, "ns", ""), !.dic = At(n, "dictionary", "")], n.c, 1)
     ELSE Bad(c0, "S1")

RECURSIVE BuildDocs(_, _, _, _)
BuildDocs(reg, trees, i, acc) ==
  IF i > Len(trees) THEN acc
  ELSE LET d == BuildDoc(reg, trees[i])
       IN BuildDocs(d.reg, trees, i + 1, Append(acc, [e |-> d.e, ts |-> d.ts, ns |-> d.ns, base |-> d.base, dic |-> d.dic]))

(* ------------------------------------------------------------ dictionary keys *)
Ctx(in) == in.ck # "" \/ in.cn # "" \/ in.cd # ""
Keyed(in) == in.op \in {"delta", "copy", "increment", "tail"}
(* x: [ns, dic, tmpl, type] *)
KeyOf(x, in, name) ==
  IF ~Keyed(in) THEN <<>>
  ELSE LET ctx == Ctx(in)
           k == IF ctx /\ in.ck # "" THEN in.ck ELSE name
           d0 == IF ctx THEN in.cd ELSE ""
           d == IF d0 # "" THEN d0 ELSE IF x.dic # "" THEN x.dic ELSE "global"
           n0 == IF in.cn # "" THEN in.cn ELSE in.ns
           n == IF n0 # "" THEN n0 ELSE x.ns
       IN <<d, IF d = "template" THEN x.tmpl ELSE IF d = "type" THEN x.type ELSE <<>>, n, k>>
DictType(in) == CASE in.k \in {"enum", "set"} -> "u64" [] OTHER -> in.k

BitsOf(in) == IF in.k \in {"grp"} THEN IF in.opt THEN 1 ELSE 0
              ELSE IF in.k = "nest" \/ in.k = "vec" THEN 0
              ELSE IF in.op \in {"default", "copy", "increment", "tail"} \/ (in.op = "constant" /\ in.opt) THEN 1 ELSE 0
RECURSIVE SumBits(_, _)
SumBits(f, i) == IF i > Len(f) THEN 0 ELSE f[i].bits + SumBits(f, i + 1)

RECURSIVE Bind(_, _), BindAll(_, _, _, _)
(* bound instruction, with keys, bit counts and whether a segment has a pmap *)
Bind(x, in) ==
  CASE in.k \in {"grp", "seq"} ->
         LET ns == IF in.ns # "" THEN in.ns ELSE x.ns
             y == [x EXCEPT !.ns = ns,
                            !.dic = IF in.dic # "" THEN in.dic ELSE @,
                            !.type = IF in.tn # "" THEN <<IF in.tns # "" THEN in.tns ELSE ns, in.tn>> ELSE @]
             sub == BindAll(y, in.sub, 1, <<>>)
             len == IF in.k = "seq" THEN <<Bind(y, in.len[1])>> ELSE <<>>
         IN [in EXCEPT !.sub = sub, !.len = len, !.pm = SumBits(sub, 1) > 0,
                       !.bits = IF in.k = "grp" THEN (IF in.opt THEN 1 ELSE 0) ELSE len[1].bits]
    [] in.k = "sdec" ->
         LET m0 == in.ma[1]
             m == [m0 EXCEPT !.key = KeyOf(x, [m0 EXCEPT !.ns = in.ns], in.nm \o "....mantissa"), !.bits = BitsOf(m0)]
         IN [in EXCEPT !.ma = <<m>>, !.key = KeyOf(x, in, in.nm \o "....exponent"),
                       !.bits = BitsOf(in) + m.bits]
    [] OTHER -> [in EXCEPT !.key = KeyOf(x, in, in.nm), !.bits = BitsOf(in)]
BindAll(x, f, i, acc) ==
  IF i > Len(f) THEN acc ELSE BindAll(x, f, i + 1, Append(acc, Bind(x, f[i])))

RECURSIVE KeysIn(_)
KeysIn(in) ==
  (IF in.key # <<>> THEN {<<in.key, IF in.k = "sdec" THEN "exp" ELSE DictType(in)>>} ELSE {})
  \cup UNION {KeysIn(in.sub[i]) : i \in DOMAIN in.sub}
  \cup (IF in.len # <<>> THEN KeysIn(in.len[1]) ELSE {})
  \cup (IF in.ma # <<>> THEN KeysIn(in.ma[1]) ELSE {})

BindDoc(d) ==
  LET dd == IF d.dic = "" THEN "global" ELSE d.dic
  IN [i \in DOMAIN d.ts |->
       LET t == d.ts[i]
           x == [ns |-> d.ns, dic |-> dd, tmpl |-> <<IF t.lns = "" THEN d.base ELSE t.lns, t.nm>>, type |-> <<>>]
           ns == IF t.ns # "" THEN t.ns ELSE x.ns
           y == [x EXCEPT !.ns = ns, !.dic = IF t.dic # "" THEN t.dic ELSE @,
                          !.type = IF t.tn # "" THEN <<IF t.tns # "" THEN t.tns ELSE ns, t.tn>> ELSE @]
           sub == BindAll(y, t.sub, 1, <<>>)
       IN [t EXCEPT !.sub = sub, !.bits = SumBits(sub, 1) + 1]]

RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Concat(ss, i + 1)

(* what a coder knows: [e |-> "" | "D4" | "duplicate_template_id",           *)
(*                      t |-> template id -> bound template]                 *)
Env(docs) ==
  LET all == SelectSeq(Concat([i \in DOMAIN docs |-> BindDoc(docs[i])], 1), LAMBDA t : t.id > 0)
      ids == {all[i].id : i \in DOMAIN all}
      keys == UNION {KeysIn(all[i]) : i \in DOMAIN all}
  IN [e |-> IF \E i, j \in DOMAIN all : i # j /\ all[i].id = all[j].id THEN "duplicate_template_id"
            ELSE IF \E a, b \in keys : a[1] = b[1] /\ a[2] # b[2] THEN "D4" ELSE "",
      t |-> [id \in ids |-> all[CHOOSE i \in DOMAIN all : all[i].id = id]],
      only |-> IF Len(all) = 1 THEN all[1].id ELSE 0]
=============================================================================
