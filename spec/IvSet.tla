------------------------------- MODULE IvSet --------------------------------
(***************************************************************************)
(* Interval sets as sets: three registers, each a finite set of integers.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Rng(a, b) == {v \in a..b : TRUE}
Start == <<{}, {}, {}>>
Step(r, op) ==
  LET d == op[2] + 1
      set(v) == [r EXCEPT ![d] = v]
  IN
  CASE op[1] \in {"add", "addi"} -> set(r[d] \union (op[3]..op[4]))
    [] op[1] = "one" -> set(r[d] \union {op[3]})
    [] op[1] = "rm" -> set(r[d] \ {op[3]})
    [] op[1] = "new" -> set({})
    [] op[1] = "cp" -> set(r[op[3] + 1])
    [] op[1] = "union" -> set(r[d] \union r[op[3] + 1])
    [] op[1] = "sub" -> set(r[d] \ r[op[3] + 1])
    [] op[1] = "compl" -> set((op[4]..op[5]) \ r[op[3] + 1])

\* everything that can be observed of register d depends on its elements only
View(r, d, lo, hi) ==
  LET e == SetToSortSeq(r[d], <) IN
  <<SelectSeq(e, LAMBDA v : lo - 1 <= v /\ v <= hi + 1), IF e = <<>> THEN <<>> ELSE <<e[1]>>, Len(e),
    <<IF Len(e) > 1 THEN 1 ELSE 0>> \o e, SelectSeq(<<0, 1, 2>>, LAMBDA k : r[k + 1] = r[d])>>

\* how intervals x = p[1]..p[2] and y = p[3]..p[4] relate, by their elements
Rel(p) ==
  LET x == p[1]..p[2]
      y == p[3]..p[4]
      meet == x \intersect y # {}
      before == \A v \in x, w \in y : v < w
      after == \A v \in x, w \in y : v > w
  IN  <<before, ~after /\ meet /\ p[1] <= p[3], p[1] > p[3], after, meet /\ p[1] > p[3], ~meet, ~meet /\ \E v \in x, w \in y : v - w \in {-1, 1}>>
=============================================================================
