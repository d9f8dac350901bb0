-------------------------------- MODULE Wire --------------------------------
(* FAST transfer encoding: stop-bit entities, integers, nullable integers,  *)
(* strings, byte vectors, presence maps.                                    *)
(*                                                                          *)
(* Values: <<0>> absent; <<1, x>> present. A reader takes a state record s  *)
(* (s.b bytes, s.i position, s.e error, ...) and returns [s |-> s', v |->]. *)
(* s.lx: an integer longer than need be was seen (a decoder may refuse it) *)
(* s.e: "" while fine; an error code; "under" (input ends inside an entity);*)
(* "unspec.." (FAST or this library leaves the outcome open).                 *)
EXTENDS Num, TLC

Absent == <<0>>
Some(x) == <<1, x>>
IsAbsent(v) == v[1] = 0
R(s, v) == [s |-> s, v |-> v]
Err(s, e) == [s |-> [s EXCEPT !.e = e], v |-> Absent]

RECURSIVE StopAt(_, _)
StopAt(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] >= 128 THEN i ELSE StopAt(b, i + 1)

Signed(t) == t \in {"i32", "i64", "exp"}

(* one integer; nullable integers shift non-negative values up by one       *)
ReadInt(s, t, nullable) ==
  LET j == StopAt(s.b, s.i)
  IN IF j = 0 THEN Err(s, "under")
     ELSE LET g == TLCEval([k \in 1..(j - s.i + 1) |-> s.b[s.i + k - 1] % 128])
              sg == Signed(t)
          IN IF Len(g) > 10 THEN Err(s, "unspec.overlong")
             ELSE LET raw == FromGroups(sg, g)
                      s2 == [s EXCEPT !.i = j + 1, !.lx = @ \/ Redundant(sg, g)]
                      v == IF nullable /\ ~Neg(raw) THEN Dec(raw) ELSE raw
                  IN IF nullable /\ raw = Zero THEN R(s2, Absent)
                     ELSE IF ~InRange(t, v) THEN Err(s, "unspec.range")
                     ELSE R(s2, Some(v))

StopLast(g) == [g EXCEPT ![Len(g)] = @ + 128]
PutInt(t, v, nullable) ==
  IF nullable /\ IsAbsent(v) THEN <<128>>
  ELSE LET raw == IF nullable /\ ~Neg(v[2]) THEN Inc(v[2]) ELSE v[2]
       IN StopLast(Groups(Signed(t), raw))

ReadAscii(s, nullable) ==
  LET j == StopAt(s.b, s.i)
  IN IF j = 0 THEN Err(s, "under")
     ELSE LET g == TLCEval([k \in 1..(j - s.i + 1) |-> s.b[s.i + k - 1] % 128])
              s2 == [s EXCEPT !.i = j + 1]
          IN IF g[1] # 0 THEN R(s2, Some(g))
             ELSE IF nullable
                  THEN IF g = <<0>> THEN R(s2, Absent)
                       ELSE IF g = <<0, 0>> THEN R(s2, Some(<<>>))
                       ELSE IF g = <<0, 0, 0>> THEN R(s2, Some(<<0>>))
                       ELSE Err(s, "unspec.ascii")
                  ELSE IF g = <<0>> THEN R(s2, Some(<<>>))
                       ELSE IF g = <<0, 0>> THEN R(s2, Some(<<0>>))
                       ELSE Err(s, "unspec.ascii")
PutAscii(v, nullable) ==
  IF IsAbsent(v) THEN <<128>>
  ELSE LET x == v[2]
       IN IF x = <<>> THEN IF nullable THEN <<0, 128>> ELSE <<128>>
          ELSE IF x[1] = 0 THEN (IF nullable THEN <<0, 0>> ELSE <<0>>) \o StopLast(x)
          ELSE StopLast(x)

ReadBytes(s, nullable) ==
  LET r == ReadInt(s, "u32", nullable)
  IN IF r.s.e # "" \/ IsAbsent(r.v) THEN r
     ELSE IF ~IsSmall(r.v[2]) THEN Err(s, "under")
     ELSE LET n == ToInt(r.v[2])
          IN IF n > Len(s.b) - r.s.i + 1 THEN Err(s, "under")
             ELSE R([r.s EXCEPT !.i = @ + n], Some(SubSeq(s.b, r.s.i, r.s.i + n - 1)))
PutBytes(v, nullable) ==
  IF IsAbsent(v) THEN <<128>>
  ELSE PutInt("u32", Some(FromInt(Len(v[2]))), nullable) \o v[2]

(* decimal: exponent then mantissa; value = exponent limbs \o mantissa limbs *)
ReadDec(s, nullable) ==
  LET r == ReadInt(s, "exp", nullable)
  IN IF r.s.e # "" \/ IsAbsent(r.v) THEN r
     ELSE LET m == ReadInt(r.s, "i64", FALSE)
          IN IF m.s.e # "" THEN m ELSE R(m.s, Some(r.v[2] \o m.v[2]))
DecE(x) == SubSeq(x, 1, 10)
DecM(x) == SubSeq(x, 11, 20)
PutDec(v, nullable) ==
  IF IsAbsent(v) THEN <<128>>
  ELSE PutInt("exp", Some(DecE(v[2])), nullable) \o PutInt("i64", Some(DecM(v[2])), FALSE)

(* integer vector: nullable length, then elements; flattened 10 limbs each  *)
RECURSIVE ReadElems(_, _, _, _)
ReadElems(s, t, n, acc) ==
  IF n = 0 THEN R(s, Some(acc))
  ELSE LET r == ReadInt(s, t, FALSE)
       IN IF r.s.e # "" THEN r ELSE ReadElems(r.s, t, n - 1, acc \o r.v[2])
ReadVec(s, t, nullable) ==
  LET r == ReadInt(s, "u32", nullable)
  IN IF r.s.e # "" \/ IsAbsent(r.v) THEN r
     \* an element takes a byte at least
     ELSE IF ~IsSmall(r.v[2]) \/ ToInt(r.v[2]) > Len(s.b) - r.s.i + 1
          THEN Err(s, "under")
          ELSE ReadElems(r.s, t, ToInt(r.v[2]), <<>>)
RECURSIVE PutElems(_, _, _)
PutElems(x, t, i) == IF i > Len(x) THEN <<>>
                     ELSE PutInt(t, Some(SubSeq(x, i, i + 9)), FALSE) \o PutElems(x, t, i + 10)
PutVec(v, t, nullable) ==
  IF IsAbsent(v) THEN <<128>>
  ELSE PutInt("u32", Some(FromInt(Len(v[2]) \div 10)), nullable) \o PutElems(v[2], t, 1)

(* presence map: s.pm the bits, s.pk the next one; bits beyond the end are 0 *)
ReadPmap(s) ==
  LET j == StopAt(s.b, s.i)
  IN IF j = 0 THEN Err(s, "under")
     ELSE R([s EXCEPT !.i = j + 1, !.pk = 1,
                      !.pm = TLCEval([k \in 1..(7 * (j - s.i + 1)) |->
                               (s.b[s.i + ((k - 1) \div 7)] \div (2 ^ (6 - ((k - 1) % 7)))) % 2])],
            Absent)
Bit(s) == s.pk <= Len(s.pm) /\ s.pm[s.pk] = 1
Next1(s) == [s EXCEPT !.pk = @ + 1]

RECURSIVE LastOne(_, _)
LastOne(bits, n) == IF n = 0 \/ bits[n] = 1 THEN n ELSE LastOne(bits, n - 1)
PmapLen(nbits) == IF nbits = 0 THEN 1 ELSE (nbits + 6) \div 7
BitAt(bits, k) == IF k <= Len(bits) THEN bits[k] ELSE 0
(* overlong = FALSE: shortest form *)
PutPmap(bits, overlong) ==
  LET n == PmapLen(IF overlong THEN Len(bits) ELSE LastOne(bits, Len(bits)))
  IN StopLast([j \in 1..n |->
       64 * BitAt(bits, 7*j - 6) + 32 * BitAt(bits, 7*j - 5) + 16 * BitAt(bits, 7*j - 4)
       + 8 * BitAt(bits, 7*j - 3) + 4 * BitAt(bits, 7*j - 2) + 2 * BitAt(bits, 7*j - 1)
       + BitAt(bits, 7*j)])
=============================================================================
