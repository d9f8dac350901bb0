----------------------------- MODULE TraceCodec -----------------------------
(* Validates recorded coder sessions against Codec. Every session is one     *)
(* initial state and a linear behaviour; every recorded call must be an      *)
(* instance of one of the actions below, else the session is rejected.       *)
EXTENDS Codec, Json, IOUtils, FiniteSets

Sessions == ndJsonDeserialize(IOEnv.TRACE)
DocSets  == ndJsonDeserialize(IOEnv.DOCS)      \* each a sequence of XML trees
\* computed once: TLC takes definitions that use RECURSIVE operators for state-level ones
BuiltDef == TLCEval([i \in DOMAIN DocSets |-> BuildDocs(<<>>, DocSets[i].trees, 1, <<>>)])
ASSUME TLCSet(1, BuiltDef)
Built == TLCGet(1)
EnvsDef  == TLCEval([i \in DOMAIN DocSets |->
              LET b == Built[i]
              IN IF \E j \in DOMAIN b : b[j].e # "" THEN [e |-> "load", t |-> <<>>, only |-> 0] ELSE Env(b)])
ASSUME TLCSet(2, EnvsDef)
Envs == TLCGet(2)

VARIABLES sid, l, cs, st, stat
vars == <<sid, l, cs, st, stat>>

Ev == Sessions[sid].ev[l]
C(n) == cs[n]
Env_(c) == Envs[c.ds]

(* ------------------------------------------------------------ verdicts *)
OK(cat, c) == [ok |-> TRUE, cat |-> cat, c |-> c, info |-> <<>>]
NO(cat, info) == [ok |-> FALSE, cat |-> cat, c |-> <<>>, info |-> info]

ResetState(c) == [c EXCEPT !.d = NoDict, !.bad = FALSE, !.was = @ \/ c.bad,
                           !.a = IF c.bad THEN -1 ELSE @]

NewCoder(e) ==
  LET env == Envs[e.ds]
      c == [ds |-> e.ds, d |-> NoDict, a |-> env.only, bad |-> FALSE, was |-> FALSE, ov |-> TRUE]
  IN IF env.e = e.err THEN (IF e.err = "" THEN OK("new", c) ELSE OK("new." \o e.err, c))
     ELSE NO("new", env.e)

EncodeVerdict(e, c0) ==
  LET c1 == IF e.rs = 1 THEN ResetState(c0) ELSE c0
      env == Env_(c0)
  IN
  IF ~e.sane THEN NO("enc.sanity", e)
  ELSE IF c1.bad THEN OK("enc.afterfailure", c1)
  ELSE IF ~Shape(env, <<e.tid, e.v>>) THEN NO("enc.shape", <<>>)
  ELSE
  LET m == <<e.tid, e.v>>
      c2 == IF c1.a = -1 THEN [c1 EXCEPT !.a = e.tid] ELSE c1
      w == Encode(env, m, [c2 EXCEPT !.a = IF e.rs = 1 THEN -1 ELSE @], c1.ov)
      bound == Len(w.o) + w.x
  IN
  IF w.e = "D3" THEN OK("enc.inexpressible", [c1 EXCEPT !.bad = TRUE])
  ELSE IF w.e # "" THEN
    IF e.err # "" THEN OK("enc.error", [c1 EXCEPT !.bad = TRUE]) ELSE NO("enc.noerror", w.e)
  ELSE IF e.err # "" THEN
    IF e.err = "D6" /\ w.rf THEN OK("enc.refused", [c1 EXCEPT !.bad = TRUE])
    ELSE IF e.err = "buffer_overflow" /\ e.cap >= 0 /\ e.cap < bound + w.y
    THEN OK("enc.overflow", [c1 EXCEPT !.bad = TRUE])
    ELSE NO("enc.err", <<e.err, w.o>>)
  ELSE
  LET r == Decode(env, e.b, c2)
  IN IF r.s.e # "" THEN NO("enc.undecodable", <<r.s.e, w.o>>)
     ELSE IF r.s.i # Len(e.b) + 1 THEN NO("enc.trailing", <<r.s.i, w.o>>)
     ELSE IF r.s.lx THEN NO("enc.overlong", w.o)
     ELSE IF r.v # m THEN NO("enc.value", <<r.v, w.o>>)
     ELSE IF Len(e.b) > bound THEN NO("enc.notminimal", w.o)
     ELSE IF r.s.d # w.d THEN NO("enc.dict", <<r.s.d, w.d>>)
     ELSE OK("enc.ok", [c1 EXCEPT !.d = r.s.d, !.a = r.s.a])

Unspecified == {"unspec." \o x : x \in {"delta", "exponent", "increment", "length", "template", "overlong",
                                         "range", "ascii"}}
DecodeVerdict(e, c0) ==
  LET c1 == IF e.rs = 1 THEN ResetState(c0) ELSE c0
      env == Env_(c0)
      poisoned == [c1 EXCEPT !.bad = TRUE]
  IN
  IF ~e.sane THEN NO("dec.sanity", e)
  ELSE IF c1.bad THEN OK("dec.afterfailure", c1)
  ELSE
  LET r == Decode(env, e.b, c1)
  IN CASE r.s.lx /\ e.err # "" -> OK("dec.overlong.refused", poisoned)
       [] r.s.e = "" ->
            IF e.err # "" THEN NO("dec.err", <<e.err, r.v>>)
            ELSE IF e.n # r.s.i - 1 THEN NO("dec.consumed", <<e.n, r.s.i - 1>>)
            ELSE IF <<e.tid, e.v>> # r.v THEN NO("dec.value", r.v)
            ELSE OK(IF r.s.lx THEN "dec.ok.overlong" ELSE "dec.ok", [c1 EXCEPT !.d = r.s.d, !.a = r.s.a])
       [] r.s.e \in Unspecified -> OK("dec." \o r.s.e, poisoned)
       [] r.s.e = "under" -> IF e.err # "" THEN OK("dec.underflow", poisoned)
                             ELSE NO("dec.underflow", <<e.n, e.v>>)
       [] OTHER -> IF e.err = r.s.e THEN OK("dec." \o r.s.e, poisoned)
                   ELSE NO("dec.error", <<r.s.e, e.err>>)


Verdict(e) ==
  CASE e.op = "new" -> NewCoder(e)
    [] e.op = "ov"  -> OK("overlong", [C(e.c) EXCEPT !.ov = e.v])
    [] e.op = "enc" -> EncodeVerdict(e, C(e.c))
    [] e.op = "dec" -> DecodeVerdict(e, C(e.c))
    [] e.op = "load" -> LET x == Built[e.ds][e.k].e
                        IN IF x = e.err \/ (x # "" /\ e.err # "") THEN OK("load", <<>>) ELSE NO("load", x)
    [] e.op = "same" -> IF e.v = e.w THEN OK("reread", <<>>) ELSE NO("reread", <<e.v, e.w>>)
    \* two encoders with the same history (none of them failed) produce the same bytes
    [] e.op = "twin" -> LET a == C(e.c)  b == C(e.t)
                        IN IF a.bad \/ b.bad \/ a.was \/ b.was THEN OK("twin.failed", <<>>)
                           ELSE IF e.v = e.w THEN OK("twin", <<>>) ELSE NO("twin", <<e.v, e.w>>)
    [] e.op = "del" -> IF e.ok THEN OK("freed", <<>>) ELSE NO("freed", e)
    [] e.op = "end" -> IF e.st = "ok" THEN OK("end", <<>>) ELSE NO("end", e.st)

Init == /\ sid \in DOMAIN Sessions
        /\ l = 1 /\ cs = <<>> /\ st = "run" /\ stat = <<>>

Bump(cat) == IF cat \in DOMAIN stat THEN [stat EXCEPT ![cat] = @ + 1] ELSE (cat :> 1) @@ stat

Step == /\ st = "run" /\ l <= Len(Sessions[sid].ev)
        /\ LET v == Verdict(Ev)
           IN IF v.ok
              THEN /\ l' = l + 1 /\ st' = "run" /\ stat' = Bump(v.cat)
                   /\ cs' = IF v.c = <<>> THEN cs ELSE (Ev.c :> v.c) @@ cs
              ELSE /\ PrintT(<<"REJ", Sessions[sid].id, Ev.i, v.cat, ToString(v.info)>>)
                   /\ l' = l /\ st' = "rej" /\ UNCHANGED <<cs, stat>>
        /\ UNCHANGED sid
Finish == /\ st = "run" /\ l = Len(Sessions[sid].ev) + 1
          /\ PrintT(<<"ACC", Sessions[sid].id, stat>>)
          /\ st' = "acc" /\ UNCHANGED <<sid, l, cs, stat>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
