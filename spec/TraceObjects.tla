---------------------------- MODULE TraceObjects ----------------------------
(* Validates recorded histories of message objects against Objects. After    *)
(* every call what all objects show is compared, not only the one called.    *)
EXTENDS Views, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
DocSets  == ndJsonDeserialize(IOEnv.DOCS)
AllOf(i) == LET b == BuildDocs(<<>>, DocSets[i].trees, 1, <<>>) IN Concat([j \in DOMAIN b |-> b[j].ts], 1)
\* computed once: TLC takes definitions that use RECURSIVE operators for state-level ones
TmplDef  == TLCEval([i \in DOMAIN DocSets |->
              LET ts == AllOf(i)  ids == {ts[j].id : j \in DOMAIN ts}
              IN [id \in ids |-> ts[CHOOSE j \in DOMAIN ts : ts[j].id = id]]])
ASSUME TLCSet(1, TmplDef)
Tmpl == TLCGet(1)

Names    == TLCEval([i \in DOMAIN DocSets |->
              LET L == DocSets[i].names IN [x \in {L[j].n : j \in DOMAIN L} |-> L[CHOOSE j \in DOMAIN L : L[j].n = x].b]])

VARIABLES sid, l, obs, st, stat
vars == <<sid, l, obs, st, stat>>

Ev == Sessions[sid].ev[l]
T == Tmpl[Sessions[sid].ds]
NM == Names[Sessions[sid].ds]

Nm(e) == IF "jm" \in DOMAIN e THEN Masked(NM, e.jm, e.im, e.x) ELSE NM

Obj(tid, f) == [tid |-> tid, f |-> f]
Drop(o, m) == [x \in DOMAIN o \ {m} |-> o[x]]
With(o, m, x) == (m :> x) @@ Drop(o, m)
Touched(o, m, p) == IF p = <<>> THEN o ELSE With(o, m, Obj(o[m].tid, Put(o[m].f, p, Get(o[m].f, p))))
Field(o, m, p) == InAt(T, T[o[m].tid].sub, o[m].f, p)

(* what is shown at p *)
RECURSIVE ShownAt(_, _)
ShownAt(vs, p) ==
  LET v == vs[p[1] + 1]
  IN IF Len(p) = 1 THEN v
     ELSE CASE v[1] = 4 -> ShownAt(v[2][p[2] + 1], Tail(Tail(p)))
            [] v[1] = 5 -> ShownAt(v[2][2], Tail(p))
            [] OTHER -> ShownAt(v[2], Tail(p))

(* the sets of objects that may be there after the call *)
Outcomes(e) ==
  IF "skip" \in DOMAIN e
  THEN IF e.op = "mut" THEN {Touched(Touched(obs, e.m, e.p), e.m, e.q)} ELSE IF e.op = "jdec" THEN {Touched(obs, e.m, e.p)} ELSE {obs}
  ELSE
  CASE e.op = "new"    -> {With(obs, e.m, Obj(e.tid, NewAll(T[e.tid].sub)))}
    [] e.op = "copy"   -> {With(obs, e.m, Obj(obs[e.from].tid, CopyAll(obs[e.from].f)))}
    [] e.op = "move"   -> {With(Drop(obs, e.from), e.m, obs[e.from])}
    [] e.op = "assign" -> IF e.mv THEN {With(Drop(obs, e.from), e.m, obs[e.from])}
                          ELSE {With(obs, e.m, Obj(obs[e.from].tid, CopyAll(obs[e.from].f)))}
    [] e.op = "as"     -> {With(obs, e.m, Obj(obs[e.m].tid, CopyAll(obs[e.from].f)))}
    [] e.op = "del"    -> {Drop(obs, e.m)}
    [] e.op = "mut" /\ e.k = "swap" ->
         {LET o == Touched(Touched(obs, e.m, e.p), e.m, e.q)
              f == o[e.m].f
          IN With(o, e.m, Obj(o[e.m].tid, Put(Put(f, e.p, Get(f, e.q)), e.q, Get(f, e.p))))}
    [] e.op = "mut" ->
         LET o == Touched(obs, e.m, e.p)
             in == Field(o, e.m, e.p)
             src == IF "src" \in DOMAIN e THEN Get(obs[e.src].f, e.sp) ELSE <<>>
         IN {With(o, e.m, Obj(o[e.m].tid, Put(o[e.m].f, e.p, x))) : x \in After(T, in, Get(o[e.m].f, e.p), e, src)}
    [] e.op = "jdec" ->
         LET tid == obs[e.m].tid  fs == T[tid].sub  f == obs[e.m].f
             strict == PVal(e.x, 1, TRUE)
             read == PVal(e.x, 1, FALSE)
             v == e.all[CHOOSE i \in DOMAIN e.all : e.all[i].m = e.m].v
             to(x) == With(obs, e.m, Obj(tid, x))
         IN IF e.rej
            THEN IF strict.i > 0 /\ (IF e.p = <<>> THEN MustAll(Nm(e), fs, strict.v)
                                     ELSE strict.v[1] # 0 /\ MustF(Nm(e), Field(obs, e.m, e.p), strict.v))
                 THEN {} ELSE {to(NewAll(fs))}
            ELSE IF read.i = 0 THEN IF e.unk THEN {to([i \in DOMAIN fs |-> Showing(T, fs[i], v[i])])} ELSE {}
            ELSE IF ~e.unk /\ e.used # read.i - 1 THEN {}
            ELSE IF e.p = <<>>
            THEN LET r == DecAll(Nm(e), fs, read.v, f, v) IN IF r[1] THEN {to(r[2])} ELSE {}
            ELSE IF read.v[1] # 4 THEN {}
            ELSE LET o == Touched(obs, e.m, e.p)[e.m].f
                     x == DecF(Nm(e), Field(obs, e.m, e.p), read.v, Get(o, e.p), ShownAt(v, e.p))
                 IN IF x = Never THEN {} ELSE {to(Put(o, e.p, x))}
    [] OTHER -> {obs}

Shown(o, e) ==
  /\ {e.all[i].m : i \in DOMAIN e.all} \subseteq DOMAIN o
  /\ DOMAIN o = {e.names[i] : i \in DOMAIN e.names}
  /\ \A m \in DOMAIN o :
       LET S == {i \in DOMAIN e.all : e.all[i].m = m}
       IN IF S # {} THEN LET r == e.all[CHOOSE i \in S : TRUE] IN r.tid = o[m].tid /\ r.v = VisAll(o[m].f)
          ELSE m \in DOMAIN obs /\ (o[m] = obs[m] \/ (o[m].tid = obs[m].tid /\ VisAll(o[m].f) = VisAll(obs[m].f)))

(* ------------------------------------------------------------ what reads and comparisons return *)
Returned(e, o) ==
  IF "skip" \in DOMAIN e THEN TRUE
  ELSE CASE e.op = "mut" /\ e.k = "read" ->
         LET h == Get(o[e.m].f, e.p)  v == Vis(h)  in == Field(o, e.m, e.p)
         IN IF in.k = "seq"
            THEN LET els == IF v = Absent THEN <<>> ELSE v[2]
                 IN /\ e.sf = els /\ e.sb = els /\ e.at = Len(els)
                    /\ (els # <<>> => e.ef = els[1] /\ e.eb = els[Len(els)])
            ELSE IF in.k \in {"dec", "sdec"}
            THEN v = Absent \/ LET t == DecText(e.txt) IN t.form /\ t.num = Number(v[2])
            ELSE LET s == Bytes(v)
                 IN e.fwd = s /\ e.bwd = s /\ ("cs" \in DOMAIN e => e.cs = s \o <<0>>)
       [] e.op = "mut" /\ e.k = "grow" -> e.at = (LET h == Get(o[e.m].f, e.p) IN h[3]) - e.n
       [] e.op = "mut" /\ "sv" \in DOMAIN e -> e.sv = Vis(Get(obs[e.src].f, e.sp))
       [] e.op = "cmp" ->
         IF "p" \in DOMAIN e
         THEN LET f == Field(o, e.m, e.p)  g == Field(o, e.n, e.q)
                  v == Vis(Get(o[e.m].f, e.p))  w == Vis(Get(o[e.n].f, e.q))
                  same == SameF(T, f, g, v, w)
              IN /\ \A i \in DOMAIN e.eq : e.eq[i] = same
                 /\ ("ord" \in DOMAIN e =>
                      LET c == Order(Bytes(v), Bytes(w), 1)
                          r == <<c < 0, c <= 0, c > 0, c >= 0>>
                      IN e.ord = c /\ e.rel = r \o r)
         ELSE LET same == SameAll(T, T[o[e.m].tid].sub, T[o[e.n].tid].sub, VisAll(o[e.m].f), VisAll(o[e.n].f))
              IN \A i \in DOMAIN e.eq : e.eq[i] = same
       [] e.op = "jenc" ->
         IF e.p = <<>>
         THEN LET fs == T[o[e.m].tid].sub  vs == VisAll(o[e.m].f)
              IN SayableAll(T, Nm(e), fs, vs) => Written(e.x, LAMBDA j : SaysAll(T, Nm(e), fs, vs, j))
         ELSE LET in == Field(o, e.m, e.p)  v == Vis(Get(o[e.m].f, e.p))
              IN IF v = Absent THEN in.k = "grp" \/ Written(e.x, LAMBDA j : j = <<4, <<>>>>)
                 ELSE (Sayable(T, Nm(e), in, v) => Written(e.x, LAMBDA j : SaysF(T, Nm(e), in, v, j)))
       [] e.op = "view" -> e.ent = Entries(T[o[e.m].tid].sub, VisAll(o[e.m].f), ViewIn(DocSets[Sessions[sid].ds].trees, e.view))
       [] OTHER -> TRUE

Cat(e) == IF "skip" \in DOMAIN e THEN "skip"
          ELSE IF e.op = "mut" THEN Field(IF e.p = <<>> THEN obs ELSE Touched(obs, e.m, e.p), e.m, e.p).k \o "." \o e.k
          ELSE IF e.op = "jdec" THEN IF e.rej THEN "jdec.rejected" ELSE "jdec" ELSE e.op

NO(cat, info) == [ok |-> FALSE, cat |-> cat, o |-> obs, info |-> info]
Verdict(e) ==
  IF e.op = "fin" THEN IF e.st # "ok" THEN NO("end", e.st) ELSE [ok |-> TRUE, cat |-> "end", o |-> obs, info |-> <<>>]
  ELSE IF ~e.sane THEN NO("memory", e.info)
  ELSE IF e.op = "end" THEN [ok |-> TRUE, cat |-> "freed", o |-> <<>>, info |-> <<>>]
  ELSE LET C == {o \in Outcomes(e) : Shown(o, e)}
       IN IF C = {} THEN NO(Cat(e) \o ".value", {[m \in DOMAIN o |-> VisAll(o[m].f)] : o \in Outcomes(e)})
          ELSE LET o == CHOOSE x \in C : TRUE
               IN IF Returned(e, o) THEN [ok |-> TRUE, cat |-> Cat(e), o |-> o, info |-> <<>>]
                  ELSE NO(Cat(e) \o ".result", [m \in DOMAIN o |-> VisAll(o[m].f)])

Init == /\ sid \in DOMAIN Sessions
        /\ l = 1 /\ obs = <<>> /\ st = "run" /\ stat = <<>>
Bump(cat) == IF cat \in DOMAIN stat THEN [stat EXCEPT ![cat] = @ + 1] ELSE (cat :> 1) @@ stat
Step == /\ st = "run" /\ l <= Len(Sessions[sid].ev)
        /\ LET v == Verdict(Ev)
           IN IF v.ok
              THEN /\ l' = l + 1 /\ st' = "run" /\ stat' = Bump(v.cat) /\ obs' = v.o
              ELSE /\ PrintT(<<"REJ", Sessions[sid].id, Ev.i, v.cat, ToString(v.info)>>)
                   /\ l' = l /\ st' = "rej" /\ UNCHANGED <<obs, stat>>
        /\ UNCHANGED sid
Finish == /\ st = "run" /\ l = Len(Sessions[sid].ev) + 1
          /\ PrintT(<<"ACC", Sessions[sid].id, stat>>)
          /\ st' = "acc" /\ UNCHANGED <<sid, l, obs, stat>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
