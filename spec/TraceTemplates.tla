--------------------------- MODULE TraceTemplates ---------------------------
(* What loaded template documents, and generated descriptions, were seen to  *)
(* say against what Templates makes of the documents.                        *)
EXTENDS Templates, Json, IOUtils, TLCExt, FiniteSets
VARIABLES sid, l, st, stat
vars == <<sid, l, st, stat>>
Sessions == ndJsonDeserialize(IOEnv.TRACE)
DocSets  == ndJsonDeserialize(IOEnv.DOCS)
\* computed once: TLC takes definitions that use RECURSIVE operators for state-level ones
BuiltDef == TLCEval([i \in DOMAIN DocSets |-> BuildDocs(<<>>, DocSets[i].trees, 1, <<>>)])
ASSUME TLCSet(1, BuiltDef)
Built == TLCGet(1)

(* ------------------------------------------------------------ what is seen *)
RECURSIVE View(_), ViewAll(_, _, _), Bits(_), SumOf(_, _)
Bits(in) == CASE in.k = "seq" -> Bits(in.len[1])
              [] in.k = "sdec" -> BitsOf(in) + BitsOf(in.ma[1])
              [] OTHER -> BitsOf(in)
SumOf(f, i) == IF i > Len(f) THEN 0 ELSE Bits(f[i]) + SumOf(f, i + 1)
Seen(in) == [k |-> IF in.k = "vec" THEN "vec." \o in.et ELSE in.k, nm |-> in.nm, ns |-> in.ns, id |-> in.id,
             opt |-> in.opt, op |-> in.op, init |-> in.init, ck |-> in.ck, cn |-> in.cn, cd |-> in.cd,
             sub |-> <<>>, dic |-> in.dic, tn |-> in.tn, tns |-> in.tns,
             els |-> in.els, els_v |-> IF in.k = "enum" THEN in.els_v ELSE <<>>,
             len |-> <<>>, ma |-> <<>>, lid |-> in.lid, lnm |-> in.lnm, lns |-> in.lns, tag |-> in.tag,
             bits |-> Bits(in), pm |-> 0, null |-> in.opt /\ in.op # "constant", rst |-> FALSE]
View(in) ==
  CASE in.k = "nest" -> Seen(in)
    [] in.k \in {"grp", "seq"} ->
         [Seen(in) EXCEPT !.sub = ViewAll(in.sub, 1, <<>>), !.pm = SumOf(in.sub, 1),
                          !.len = IF in.k = "seq" THEN <<View(in.len[1])>> ELSE <<>>]
    [] in.k = "tmpl" ->
         [Seen(in) EXCEPT !.sub = ViewAll(in.sub, 1, <<>>), !.pm = SumOf(in.sub, 1) + 1,
                          !.rst = in.opt, !.opt = FALSE, !.null = FALSE, !.bits = 0]
    [] in.k = "sdec" -> [Seen(in) EXCEPT !.ma = <<[Seen(in.ma[1]) EXCEPT !.nm = ""]>>]
    [] OTHER -> Seen(in)
ViewAll(f, i, acc) == IF i > Len(f) THEN acc ELSE ViewAll(f, i + 1, Append(acc, View(f[i])))
Description(d) == [ns |-> d.ns, base |-> d.base, dic |-> d.dic, ts |-> ViewAll(d.ts, 1, <<>>)]

(* ------------------------------------------------------------ differences   *)
RECURSIVE Diff(_, _, _), DiffAll(_, _, _, _)
Diff(path, a, b) ==
  LET K == {k \in DOMAIN a : k \notin {"sub", "len", "ma"} /\ a[k] # b[k]}
  IN {<<path \o "." \o k, a[k], b[k]>> : k \in K}
     \cup UNION {DiffAll(path \o "." \o k, a[k], b[k], 1) : k \in {"sub", "len", "ma"}}
DiffAll(path, a, b, i) ==
  IF Len(a) # Len(b) THEN {<<path, Len(a), Len(b)>>}
  ELSE IF i > Len(a) THEN {}
  ELSE Diff(path \o "[" \o a[i].nm \o "]", a[i], b[i]) \cup DiffAll(path, a, b, i + 1)

(* ------------------------------------------------------------ accessors     *)
(* Which field each accessor of the generated types reaches, by position in   *)
(* the parent: -1 is said of what there is no accessor for, -3 of an accessor *)
(* which refuses because the field is absent.                                 *)
Settable(in) == in.op # "constant" \/ (in.k = "sdec" /\ in.ma[1].op # "constant")
Reached(in) == /\ in.k # "nest" /\ in.nm # ""
               /\ ~(in.k = "grp" /\ Len(in.sub) = 1 /\ in.sub[1].k = "nest")
Elements(in) ==
  CASE in.k = "enum" /\ Settable(in) ->
         [j \in DOMAIN in.els |-> <<in.els[j], in.els_v[j], in.els_v[j], TRUE, TRUE, 1>>]
    [] in.k = "set" /\ Settable(in) ->
         <<<<"", -1>>>> \o [j \in DOMAIN in.els |-> <<in.els[j], j - 1, TRUE, TRUE, 1, -1>>]
    [] OTHER -> <<>>
RECURSIVE Reach(_, _)
Reach(path, f) ==
  UNION {IF ~Reached(f[i]) THEN {}
         ELSE LET p == Append(path, f[i].nm)
              IN {[p |-> p, get |-> i - 1, set |-> IF Settable(f[i]) THEN i - 1 ELSE -1,
                   try |-> IF ~f[i].opt \/ f[i].k \in {"grp", "seq"} THEN i - 1 ELSE -1,
                   gone |-> IF f[i].opt THEN -3 ELSE -1, e |-> Elements(f[i])]}
                 \cup (IF f[i].k = "grp" \/ (f[i].k = "seq" /\ f[i].sub # <<>> /\ f[i].sub[1].nm # "")
                        THEN Reach(p, f[i].sub) ELSE {})
         : i \in DOMAIN f}
Walked(d) == UNION {Reach(<<d.ts[i].nm>>, d.ts[i].sub) : i \in DOMAIN d.ts}
ToSet(q) == {q[i] : i \in DOMAIN q}

Coded == {"S1", "S2", "S4", "S5", "D8"}
(* "" or what is wrong with a recorded event                                 *)
Wrong(e) ==
  IF e.op = "end" THEN IF e.st = "ok" THEN "" ELSE "ended: " \o e.st
  ELSE
  LET d == Built[e.ds][e.k]
  IN IF d.e # "" THEN
       IF e.err = "" THEN "accepted, expected " \o d.e
       ELSE IF d.e \in Coded /\ e.err # d.e THEN "rejected with " \o e.err \o ", expected " \o d.e ELSE ""
     ELSE IF e.err # "" THEN "rejected with " \o e.err
     ELSE IF e.op = "walk" THEN
       LET w == Walked(d)
           v == ToSet(e.w)
       IN IF w = v /\ Len(e.w) = Cardinality(v) THEN ""
          ELSE "accessors (expected, seen) " \o ToString(<<w \ v, v \ w>>)
     ELSE LET w == Description(d)
              T == {k \in {"ns", "base", "dic"} : w[k] # e.d[k]}
          IN IF T # {} THEN "document " \o ToString([k \in T |-> <<w[k], e.d[k]>>])
             ELSE IF w.ts = e.d.ts THEN ""
             ELSE LET D == DiffAll("ts", w.ts, e.d.ts, 1)
                  IN "differs (expected, seen) " \o ToString(D)
Cat(e) == IF e.op = "end" THEN "end"
          ELSE IF Built[e.ds][e.k].e = "" THEN e.op ELSE "reject." \o Built[e.ds][e.k].e

Ev == Sessions[sid].ev[l]
Init == /\ sid \in DOMAIN Sessions /\ l = 1 /\ st = "run" /\ stat = <<>>
Bump(cat) == IF cat \in DOMAIN stat THEN [stat EXCEPT ![cat] = @ + 1] ELSE (cat :> 1) @@ stat
Step == /\ st = "run" /\ l <= Len(Sessions[sid].ev)
        /\ LET w == Wrong(Ev)
           IN IF w = "" THEN l' = l + 1 /\ st' = "run" /\ stat' = Bump(Cat(Ev))
              ELSE /\ PrintT(<<"REJ", Sessions[sid].id, Ev.i, Ev.op, w>>)
                   /\ st' = "rej" /\ UNCHANGED <<l, stat>>
        /\ UNCHANGED sid
Finish == /\ st = "run" /\ l = Len(Sessions[sid].ev) + 1
          /\ PrintT(<<"ACC", Sessions[sid].id, stat>>)
          /\ st' = "acc" /\ UNCHANGED <<sid, l, stat>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
