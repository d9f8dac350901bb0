--------------------------------- MODULE Link ---------------------------------
(* One encoder and one decoder joined by a channel, over a few templates     *)
(* ("cell"), explored exhaustively: every history of sends drawn from a pool *)
(* of messages, with and without a reset, and (mode "feed") every history of *)
(* byte strings drawn from a pool given to a decoder alone.                  *)
(*                                                                          *)
(* TLC checks the laws of the coding below on every reachable state, and     *)
(* prints the transition graph: tools/cells.py covers every edge of it by    *)
(* walks that run on the real coders and are validated against TraceCodec.   *)
EXTENDS Codec, Json, IOUtils

\* each: [trees, pool (messages), feed (byte strings), again (feeds given with a reset, too), mode, size]
Cells == ndJsonDeserialize(IOEnv.CELLS)
\* computed once: TLC takes definitions that use RECURSIVE operators for state-level ones
EnvsDef == TLCEval([i \in DOMAIN Cells |-> Env(BuildDocs(<<>>, Cells[i].trees, 1, <<>>))])
ASSUME TLCSet(1, EnvsDef)
Envs == TLCGet(1)

VARIABLES cell, e, d, bad, chan, ok
vars == <<cell, e, d, bad, chan, ok>>

Env_ == Envs[cell]
Fresh == [d |-> NoDict, a |-> Env_.only]
Lost == [d |-> NoDict, a |-> -1]
Mode == Cells[cell].mode
Pool == Cells[cell].pool
Feeds == Cells[cell].feed

\* templates that no coder accepts (one key for fields of different types) have no behaviour
Init == /\ cell \in {i \in DOMAIN Cells : Envs[i].e = ""}
        /\ e = [d |-> NoDict, a |-> Envs[cell].only] /\ d = e
        /\ bad = FALSE /\ chan = <<>> /\ ok = TRUE

Here == IF bad THEN "bad" ELSE ToString(<<e, d>>)
Edge(to, label) == PrintT("E~" \o ToString(cell) \o "~" \o Here \o "~" \o label \o "~" \o to)

EncOf(m, rs) == Encode(Env_, m, IF rs THEN Lost ELSE e, TRUE)
DecOf(b, rs) == Decode(Env_, b, IF rs THEN [d |-> NoDict, a |-> IF bad THEN -1 ELSE d.a] ELSE d)

(* ------------------------------------------------------------------ link *)
Send(i, rs) ==
  /\ Mode = "link" /\ chan = <<>> /\ (bad => rs)
  /\ LET w == TLCEval(EncOf(Pool[i], rs))
     IN IF w.e # "" \/ w.rf
        THEN /\ bad' = TRUE /\ e' = Lost /\ d' = Lost /\ UNCHANGED <<chan, ok>>
             /\ Edge("bad", ToString(<<i, rs>>))
        ELSE /\ chan' = <<[i |-> i, b |-> w.o, rs |-> rs, at |-> Here]>>
             /\ e' = [d |-> w.d, a |-> w.a]
             /\ UNCHANGED <<d, bad, ok>>
  /\ UNCHANGED cell
Recv ==
  /\ chan # <<>>
  /\ LET c == chan[1]  r == TLCEval(DecOf(c.b, c.rs))
     IN /\ ok' = (r.s.e = "" /\ ~r.s.lx /\ r.v = Pool[c.i] /\ r.s.i = Len(c.b) + 1)
        /\ d' = [d |-> r.s.d, a |-> r.s.a]
        /\ PrintT("E~" \o ToString(cell) \o "~" \o c.at \o "~" \o ToString(<<c.i, c.rs>>) \o "~" \o ToString(<<e, d'>>))
  /\ chan' = <<>> /\ bad' = FALSE
  /\ UNCHANGED <<cell, e>>

(* ------------------------------------------------------------------ feed *)
SizeOf(v) == IF v[1] = 2 THEN Len(v[2]) ELSE 0
Bounded(dict) == \A k \in DOMAIN dict : dict[k][1] # 2 \/ dict[k] \in {<<2, Cells[cell].keep[j]>> : j \in DOMAIN Cells[cell].keep}
Skipped(er) == er \in {"unspec." \o x : x \in {"delta", "exponent", "increment", "length", "template", "overlong",
                                               "range", "ascii"}}
Feed(i, rs) ==
  /\ Mode = "feed" /\ (bad => rs) /\ (rs => bad \/ Cells[cell].again[i])
  /\ LET r == TLCEval(DecOf(Feeds[i], rs))
     IN /\ ~r.s.lx /\ ~Skipped(r.s.e)
        /\ IF r.s.e = "" THEN bad' = FALSE /\ d' = [d |-> r.s.d, a |-> r.s.a] /\ e' = d'
                         ELSE bad' = TRUE /\ d' = Lost /\ e' = Lost
        /\ Edge(IF r.s.e = "" THEN ToString(<<d', d'>>) ELSE "bad", ToString(<<i, rs>>))
  /\ UNCHANGED <<cell, chan, ok>>
FeedBound == Mode = "feed" => Bounded(d.d)

Next == \/ \E i \in DOMAIN Pool : \E rs \in BOOLEAN : Send(i, rs)
        \/ Recv
        \/ \E i \in DOMAIN Feeds : \E rs \in BOOLEAN : Feed(i, rs)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ laws *)
\* what arrives is what was sent
Delivered == ok
\* with nothing under way both ends know the same
Agreement == chan = <<>> => e = d
\* a receiver never takes the beginning of a message for a message
SelfDelimiting == chan = <<>> \/ \A n \in 0 .. Len(chan[1].b) - 1 :
                    LET r == DecOf(SubSeq(chan[1].b, 1, n), chan[1].rs) IN r.s.e # ""
\* no byte string of the pool says the same in fewer bytes (after a reset, to any receiver)
Minimal == chan = <<>> \/ \A j \in DOMAIN Feeds :
             Len(Feeds[j]) >= Len(chan[1].b)
             \/ LET r == IF chan[1].rs THEN Decode(Env_, Feeds[j], Lost) ELSE DecOf(Feeds[j], FALSE)
                IN r.s.e # "" \/ r.s.i # Len(Feeds[j]) + 1 \/ r.v # Pool[chan[1].i]
\* a reset sender says what a new one says
LikeNew == chan = <<>> \/ ~chan[1].rs \/ Encode(Env_, Pool[chan[1].i], Lost, TRUE).o = chan[1].b
\* what follows a message does not change what it means
Prefix == chan = <<>> \/ LET r == DecOf(chan[1].b \o <<0, 255>>, chan[1].rs)
                         IN r.s.e = "" /\ r.v = Pool[chan[1].i] /\ r.s.i = Len(chan[1].b) + 1
=============================================================================
