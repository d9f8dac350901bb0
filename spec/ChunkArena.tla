----------------------------- MODULE ChunkArena -----------------------------
(* The arena as a list of chunks: blocks come from the chunk at the head of  *)
(* the current list; a chunk with room left over goes to the free list; a    *)
(* reset frees every chunk. Checked exhaustively for the guarantees of       *)
(* Arena over sizes at the boundaries of chunks, and the source of call      *)
(* sequences that are replayed on the real arena (PrintT at depth Depth).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sizes, Depth, Chunk, Lead, Spare, Emit
VARIABLES cur, free, blocks, calls, nchunks
vars == <<cur, free, blocks, calls, nchunks>>

Up(n, x) == ((n + x - 1) \div x) * x
Room(c) == c.cap - c.used
New(id, n) == [id |-> id, cap |-> Up(n + Lead, Chunk) - Lead, used |-> 0]

Init == /\ cur = <<New(1, 0 + 1)>> /\ free = <<>> /\ blocks = {} /\ calls = <<>> /\ nchunks = 1

Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* [cur, free, nchunks] with room for n at the head of cur *)
Ready(n) ==
  IF Room(cur[1]) >= n THEN [c |-> cur, f |-> free, k |-> nchunks]
  ELSE LET fit == {i \in DOMAIN free : Room(free[i]) >= n}
       IN IF fit # {}
          THEN LET i == CHOOSE i \in fit : \A j \in fit : i <= j
               IN [c |-> <<free[i]>> \o cur, f |-> Drop(free, i), k |-> nchunks]
          ELSE LET spare == Room(cur[1]) >= Spare
               IN [c |-> <<New(nchunks + 1, n)>> \o IF spare THEN Tail(cur) ELSE cur,
                   f |-> IF spare THEN <<cur[1]>> \o free ELSE free, k |-> nchunks + 1]
(* a block of m bytes, the blocks gone are handed back *)
Take(m, gone) ==
  LET n == Up(m, 8)  r == Ready(n)
  IN /\ cur' = [r.c EXCEPT ![1].used = @ + n] /\ free' = r.f /\ nchunks' = r.k
     /\ blocks' = (blocks \ gone) \cup {[id |-> Len(calls) + 1, chunk |-> r.c[1].id, off |-> r.c[1].used, len |-> m, cap |-> r.c[1].cap]}
Alloc(m) == /\ Take(m, {}) /\ calls' = Append(calls, <<"aa", m>>)
Grow(b) == /\ Take(Up(2 * (b.len + 1), 64), {b}) /\ calls' = Append(calls, <<"ar", b.id>>)
Fresh(c) == [c EXCEPT !.used = 0]
Reset == /\ cur' = <<Fresh(cur[1])>>
         /\ free' = [i \in 1..(Len(cur) - 1 + Len(free)) |-> Fresh(IF i < Len(cur) THEN cur[i + 1] ELSE free[i - Len(cur) + 1])]
         /\ blocks' = {} /\ calls' = Append(calls, <<"az", 0>>) /\ UNCHANGED nchunks
Next == /\ Len(calls) < Depth
        /\ \/ \E m \in Sizes : Alloc(m)
           \/ \E b \in blocks : b.len < 2 * Chunk /\ Grow(b)
           \/ calls # <<>> /\ calls[Len(calls)][1] # "az" /\ Reset
        /\ (Emit /\ Len(calls') = Depth => PrintT(<<"SEQ", calls'>>))
Spec == Init /\ [][Next]_vars

Inside == \A b \in blocks : b.off % 8 = 0 /\ b.off + b.len <= b.cap
Disjoint == \A a, b \in blocks : a.id # b.id /\ a.chunk = b.chunk /\ a.len > 0 /\ b.len > 0
              => a.off + a.len <= b.off \/ b.off + b.len <= a.off
Listed == \A i, j \in DOMAIN (cur \o free) : i # j => (cur \o free)[i].id # (cur \o free)[j].id
=============================================================================
