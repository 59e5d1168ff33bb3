------------------------------ MODULE CacheSame ------------------------------
(* Two caches of one decision, one filled by threads at once and one by the   *)
(* same work in sequence, are parts of one and the same automaton: states     *)
(* reached by the same symbols say the same, and no edge leads to a dead end  *)
(* in one and on in the other.  In each, states are numbered by their places  *)
(* and edges lead to existing states.                                         *)
(*   cache: [s0 (-1 none), prec, st: seq of [num, acc, alt, full, preds, e: seq of [symbol, to (-1 dead end)]]] *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Edges(d, n) == {<<e[1], e[2]>> : e \in {d.st[n + 1].e[k] : k \in DOMAIN d.st[n + 1].e}}
To(d, n, x) == (CHOOSE p \in Edges(d, n) : p[1] = x)[2]
Has(d, n, x) == \E p \in Edges(d, n) : p[1] = x
Sound(d) ==
  /\ d.s0 = -1 \/ (d.s0 >= 0 /\ d.s0 < Len(d.st))
  \* (the first place is taken by the dead end)
  /\ \A n \in 1..Len(d.st) - 1 : d.st[n + 1].num = n
  /\ \A n \in 0..Len(d.st) - 1 : \A p \in Edges(d, n) : p[2] = -1 \/ (p[2] > 0 /\ p[2] < Len(d.st))
RECURSIVE Reach(_, _, _, _)
Reach(a, b, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET nx == UNION {{<<q[2], To(b, p[2], q[1])>> : q \in {e \in Edges(a, p[1]) : Has(b, p[2], e[1]) /\ e[2] /= -1 /\ To(b, p[2], e[1]) /= -1}} : p \in todo} IN
       Reach(a, b, nx \ (seen \cup todo), seen \cup todo)
Like(a, b, p) ==
  LET x == a.st[p[1] + 1]
      y == b.st[p[2] + 1] IN
  /\ x.acc = y.acc /\ x.full = y.full /\ x.preds = y.preds /\ (x.acc = 1 => x.alt = y.alt)
  /\ \A e \in Edges(a, p[1]) : Has(b, p[2], e[1]) => (e[2] = -1 <=> To(b, p[2], e[1]) = -1)
Ok(c) ==
  /\ Sound(c.a) /\ Sound(c.b) /\ c.a.prec = c.b.prec
  /\ c.a.s0 >= 0 /\ c.b.s0 >= 0 => \A p \in Reach(c.a, c.b, {<<c.a.s0, c.b.s0>>}, {}) : Like(c.a, c.b, p)
VARIABLES ci, ok, n
Init == ci \in DOMAIN Cases /\ ok = TRUE /\ n = 0
Next == n = 0 /\ n' = 1 /\ ci' = ci /\ ok' = Ok(Cases[ci])
Spec == Init /\ [][Next]_<<ci, ok, n>>
SameAutomaton == ok
=============================================================================
