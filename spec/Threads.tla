------------------------------ MODULE Threads ------------------------------
(* Sessions in threads of their own which have nothing in common but the      *)
(* description of the templates. A session is a coder with a dictionary of    *)
(* one field, of the operator the description gives it; its steps are the     *)
(* encoding of a value and a reset. Whatever the schedule, each session goes  *)
(* through the states it would go through alone (Alone): which is why the     *)
(* trace of each thread is validated by itself. The schedules are those of    *)
(* all interleavings up to Steps; Touch is what an implementation must not    *)
(* do: keep a part of the state where other sessions reach it (the mutant of  *)
(* the model, see Mutant).                                                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Session, Steps, Mutant
Val == 0..1
Op == {"copy", "increment", "none"}
VARIABLES desc, dict, hist, sent
vars == <<desc, dict, hist, sent>>

Empty == 2
\* what one session does: the wire bit and the dictionary after it
Sends(op, d, v) ==
  CASE op = "none" -> TRUE
    [] op = "copy" -> v # d
    [] op = "increment" -> d = Empty \/ v # d + 1
After(op, d, v) == IF op = "none" THEN d ELSE v
RECURSIVE Run(_, _)
Run(op, h) ==
  IF h = <<>> THEN [d |-> Empty, w |-> <<>>]
  ELSE LET p == Run(op, SubSeq(h, 1, Len(h) - 1))  x == h[Len(h)]
       IN IF x = <<9>> THEN [d |-> Empty, w |-> p.w]
          ELSE [d |-> After(op, p.d, x[1]), w |-> Append(p.w, Sends(op, p.d, x[1]))]

Init == /\ desc \in Op
        /\ dict = [s \in Session |-> Empty]
        /\ hist = [s \in Session |-> <<>>]
        /\ sent = [s \in Session |-> <<>>]
Place(s) == IF Mutant THEN CHOOSE x \in Session : TRUE ELSE s
Encode(s, v) ==
  /\ sent' = [sent EXCEPT ![s] = Append(@, Sends(desc, dict[Place(s)], v))]
  /\ dict' = [dict EXCEPT ![Place(s)] = After(desc, @, v)]
  /\ hist' = [hist EXCEPT ![s] = Append(@, <<v>>)]
  /\ UNCHANGED desc
Reset(s) ==
  /\ dict' = [dict EXCEPT ![Place(s)] = Empty]
  /\ hist' = [hist EXCEPT ![s] = Append(@, <<9>>)]
  /\ UNCHANGED <<desc, sent>>
Next == \E s \in Session : Len(hist[s]) < Steps /\ ((\E v \in Val : Encode(s, v)) \/ Reset(s))
Spec == Init /\ [][Next]_vars

Alone == \A s \in Session : LET r == Run(desc, hist[s]) IN sent[s] = r.w /\ dict[s] = r.d
Shared == [][desc' = desc]_vars
=============================================================================
