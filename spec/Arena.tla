------------------------------- MODULE Arena -------------------------------
(* What a user of an arena allocator may rely on. State: the blocks handed   *)
(* out since the last reset (where, how long, what was written into them),   *)
(* the calls of the running cycle, the calls of the cycle before the last    *)
(* reset, how many cycles in a row made the same calls and the most memory   *)
(* any cycle needed. Where a block lies is the implementation's choice.      *)
(* 64-bit quantities are limbs <<16 bit, 24 bit, 24 bit>>.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

B == 16777216
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Le(a, b) == a = b \/ Lt(a, b)
Add(a, b) == LET c == a[3] + b[3]  d == a[2] + b[2] + c \div B
             IN <<a[1] + b[1] + d \div B, d % B, c % B>>
Null == <<0, 0, 0>>
Huge(n) == Le(<<0, 128, 0>>, n)       \* requests that may fail: 2^31 bytes or more
Unfilled(n) == n = Null \/ Lt(<<0, 4, 0>>, n)

Empty == [live |-> <<>>, cyc |-> <<>>, prev |-> <<>>, rep |-> 0, top |-> 0, hi |-> 0]

End(b) == Add(b.at, b.len)
Apart(a, b) == a.len = Null \/ b.len = Null \/ Le(End(a), b.at) \/ Le(End(b), a.at)
(* a block handed out: aligned, inside the address space, clear of every other one *)
Good(live, b, asked) ==
  /\ Le(asked, b.len)
  /\ b.at[3] % 8 = 0
  /\ End(b)[1] < 1
  /\ (b.len = Null \/ b.at # Null)
  /\ \A i \in DOMAIN live : Apart(live[i], b)
Without(live, i) == [j \in DOMAIN live \ {i} |-> live[j]]
Shows(b) == IF Unfilled(b.len) THEN 0 - 2 ELSE b.c
Contents(live) == {<<i, Shows(live[i])>> : i \in DOMAIN live}

Called(s, e) == [s EXCEPT !.cyc = Append(@, <<e.op, IF e.op = "aa" THEN 0 ELSE e.id, e.n>>), !.hi = IF e.foot > @ THEN e.foot ELSE @]
Hold(s, e) == [s EXCEPT !.live = (e.id :> [at |-> e.at, len |-> e.len, c |-> e.c]) @@ Without(@, e.id)]

Took(s, e) == LET b == [at |-> e.at, len |-> e.len, c |-> e.c] IN Good(s.live, b, e.n)
Grown(s, e) ==
  LET others == Without(s.live, e.id)
      b == [at |-> e.at, len |-> e.len, c |-> e.c]
      old == IF e.id \in DOMAIN s.live THEN s.live[e.id] ELSE [at |-> Null, len |-> Null, c |-> 0]
  IN /\ Good(others, b, e.n)
     /\ (Unfilled(old.len) \/ e.n = Null \/ e.kept = old.c)

(* cycles that make the same calls over and over end up needing no more memory *)
Max3(a, b, c) == IF a >= b /\ a >= c THEN a ELSE IF b >= c THEN b ELSE c
Settled(s, e) ==
  LET same == s.cyc = s.prev  k == Len(s.cyc)
  IN same /\ s.rep + 1 > k * k + 1 => s.hi <= s.top
Cycle(s, e) ==
  [live |-> <<>>, cyc |-> <<>>, prev |-> s.cyc, rep |-> IF s.cyc = s.prev THEN s.rep + 1 ELSE 0,
   top |-> Max3(IF s.cyc = s.prev THEN s.top ELSE 0, s.hi, e.foot), hi |-> e.foot]

Failed(e) == "err" \in DOMAIN e
(* -> the set of states after the call; empty when the call may not end so *)
After(s, e) ==
  LET t == CASE e.op = "anew" -> {Empty}
             [] e.op \in {"aa", "ar"} /\ Failed(e) -> IF Huge(e.n) THEN {Called(s, e)} ELSE {}
             [] e.op = "aa" -> IF Took(s, e) THEN {Hold(Called(s, e), e)} ELSE {}
             [] e.op = "ar" -> IF Grown(s, e) THEN {Hold(Called(s, e), e)} ELSE {}
             [] e.op = "ad" -> {[Called(s, e) EXCEPT !.live = Without(@, e.id)]}
             [] e.op = "az" -> IF Settled(s, e) THEN {Cycle(s, e)} ELSE {}
  IN {u \in t : e.op = "anew" \/ {<<e.now[i][1], e.now[i][2]>> : i \in DOMAIN e.now} = Contents(u.live)}
=============================================================================
