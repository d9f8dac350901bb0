----------------------------- MODULE TraceArena -----------------------------
(* Recorded calls on real arenas as behaviours of Arena.                     *)
EXTENDS Arena, Json, IOUtils, TLCExt
VARIABLES sid, l, s, st, stat
vars == <<sid, l, s, st, stat>>
Sessions == ndJsonDeserialize(IOEnv.TRACE)
Ev == Sessions[sid].ev[l]
Init == /\ sid \in DOMAIN Sessions /\ l = 1 /\ s = Empty /\ st = "run" /\ stat = <<>>
Bump(cat) == IF cat \in DOMAIN stat THEN [stat EXCEPT ![cat] = @ + 1] ELSE (cat :> 1) @@ stat
Step == /\ st = "run" /\ l <= Len(Sessions[sid].ev)
        /\ LET A == IF Ev.op = "fin" THEN IF Ev.st = "ok" THEN {s} ELSE {} ELSE After(s, Ev)
           IN IF A # {} THEN /\ s' \in A /\ l' = l + 1 /\ st' = "run" /\ stat' = Bump(IF Failed(Ev) THEN "failed" ELSE Ev.op)
              ELSE /\ PrintT(<<"REJ", Sessions[sid].id, Ev.i, Ev.op, ToString(Ev) \o " after " \o ToString(s)>>)
                   /\ st' = "rej" /\ UNCHANGED <<l, s, stat>>
        /\ UNCHANGED sid
Finish == /\ st = "run" /\ l = Len(Sessions[sid].ev) + 1
          /\ PrintT(<<"ACC", Sessions[sid].id, stat>>)
          /\ st' = "acc" /\ UNCHANGED <<sid, l, s, stat>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
