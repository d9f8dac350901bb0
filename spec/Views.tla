------------------------------- MODULE Views --------------------------------
(* What a view shows of a message. A view lists fields, each with references *)
(* in order of preference. A reference is a path of steps, each the name of  *)
(* a field of the group reached so far or the number of an element of the    *)
(* sequence reached so far. A view field shows the first of its references   *)
(* which leads to something present, or is absent.                           *)
(* Where a field is is said as in Objects: by the positions of the fields    *)
(* and elements on the way to it, from 0.                                    *)
EXTENDS JsonText

Nowhere == <<>>
(* fs: the fields of a group, vs: what they show, s: the steps, from i on    *)
RECURSIVE Lead(_, _, _, _)
Lead(fs, vs, s, i) ==
  LET at == {j \in DOMAIN fs : fs[j].nm = s[i].n}
      j  == CHOOSE x \in at : TRUE
      v  == vs[j]
      go(w) == IF w = Nowhere THEN Nowhere ELSE <<j - 1>> \o w
  IN IF at = {} \/ v = Absent THEN Nowhere
     ELSE IF i = Len(s) THEN <<j - 1>>
     ELSE IF fs[j].k = "grp" THEN go(Lead(fs[j].sub, v[2], s, i + 1))
     ELSE LET e == s[i + 1].i
              w == IF i + 1 < Len(s) THEN Lead(fs[j].sub, v[2][e + 1], s, i + 2)
                   ELSE IF v[2][e + 1][1] = Absent THEN Nowhere ELSE <<0>>   \* the only field of the element
          IN IF e >= Len(v[2]) \/ w = Nowhere THEN Nowhere ELSE <<j - 1, e>> \o w

RECURSIVE FirstOf(_, _, _, _)
FirstOf(fs, vs, refs, i) ==
  IF i > Len(refs) THEN Nowhere
  ELSE LET p == Lead(fs, vs, refs[i].p, 1) IN IF p # Nowhere THEN p ELSE FirstOf(fs, vs, refs, i + 1)

(* view: the element of the document that defines it                         *)
Entries(fs, vs, view) == [i \in DOMAIN view.c |-> FirstOf(fs, vs, view.c[i].c, 1)]
ViewIn(trees, name) ==
  LET All == UNION {{trees[d].c[i] : i \in DOMAIN trees[d].c} : d \in DOMAIN trees}
  IN CHOOSE v \in All : v.t = "view" /\ v.a.name = name
=============================================================================
