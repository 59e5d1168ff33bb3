------------------------------ MODULE ListenOk -------------------------------
(* What listeners are told, judged on recordings of the real parser: a walk   *)
(* of the finished tree, and listeners attached during the parse.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)   \* tree, walk (events of a walk by listener 99), ev (of the parse), n0 (listeners from the start), lr (rules that are left-recursive), lab, vis, eof

RECURSIVE Walk(_), WalkAll(_)
WalkAll(ts) == IF ts = <<>> THEN <<>> ELSE Walk(Head(ts)) \o WalkAll(Tail(ts))
Walk(t) == IF t[1] = 0 THEN <<<<"en", 99, t[2]>>>> \o WalkAll(t[10]) \o <<<<"ex", 99, t[2]>>>>
           ELSE <<<<IF t[1] = 1 THEN "te" ELSE "er", 99, t[2]>>>>
WalkOk(c) == c.walk = Walk(c.tree) \o <<<<"back", 99>>>>

Heard(c, l) == SelectSeq(c.ev, LAMBDA e : e[1] \in {"en", "ex", "te", "er"} /\ e[2] = l)
Leafs(s) == SelectSeq(s, LAMBDA e : e[1] \in {"te", "er"} /\ e[3] >= 0)
As99(s) == [k \in DOMAIN s |-> [s[k] EXCEPT ![2] = 99]]
ErrFree(c) == \A k \in DOMAIN c.ev : c.ev[k][1] /= "e"
Ids(c) == {c.ev[k][2] : k \in {j \in DOMAIN c.ev : c.ev[j][1] \in {"en", "ex", "te", "er"}}}
RemovedAt(c, l) == {k \in DOMAIN c.ev : c.ev[k][1] = "rm" /\ c.ev[k][2] = l}
IsSuffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Within(a, b) == \E k \in 0..(Len(b) - Len(a)) : SubSeq(b, k + 1, k + Len(a)) = a

\* every enter has its exit, properly nested; the innermost open rule is what is left
RECURSIVE Nest(_, _)
Nest(s, open) ==
  IF s = <<>> THEN open = <<>>
  ELSE LET e == Head(s) IN
       CASE e[1] = "en" -> Nest(Tail(s), <<e[3]>> \o open)
         [] e[1] = "ex" -> open /= <<>> /\ Head(open) = e[3] /\ Nest(Tail(s), Tail(open))
         [] OTHER -> Nest(Tail(s), open)
RECURSIVE UsesLr(_, _)
UsesLr(c, t) == t[1] = 0 /\ (c.lr[t[2] + 1] = 1 \/ \E k \in DOMAIN t[10] : UsesLr(c, t[10][k]))
LiveOk(c) ==
  LET w == Leafs(Walk(c.tree))
      whole == {l \in 0..(c.n0 - 1) : RemovedAt(c, l) = {}} IN
  /\ \A l \in whole : /\ Leafs(As99(Heard(c, l))) = w
                      /\ ErrFree(c) => Nest(Heard(c, l), <<>>)
                      \* without left recursion the listener sees exactly the walk
                      /\ ErrFree(c) /\ ~UsesLr(c, c.tree) => As99(Heard(c, l)) = Walk(c.tree)
                      /\ \A m \in whole : Len(Heard(c, m)) = Len(Heard(c, l))
  \* nothing is heard after the removal, everything before it
  /\ \A l \in Ids(c) : \A r \in RemovedAt(c, l) :
       /\ \A k \in DOMAIN c.ev : k > r => ~(c.ev[k][1] \in {"en", "ex", "te", "er"} /\ c.ev[k][2] = l)
       /\ l < c.n0 => IsPrefix(Leafs(As99(Heard(c, l))), w)
       /\ c.ev[r][3] = l
  /\ \A l \in Ids(c) : IF l >= c.n0 /\ RemovedAt(c, l) = {} THEN IsSuffix(Leafs(As99(Heard(c, l))), w) ELSE Within(Leafs(As99(Heard(c, l))), w)

VARIABLES ci, ok, n
Init == ci \in DOMAIN Cases /\ ok = TRUE /\ n = 0
Next == n = 0 /\ n' = 1 /\ ci' = ci /\ ok' = (WalkOk(Cases[ci]) /\ LiveOk(Cases[ci]))
Spec == Init /\ [][Next]_<<ci, ok, n>>
ListenersSeeTheTree == ok
=============================================================================
