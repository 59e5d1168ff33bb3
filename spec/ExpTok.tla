------------------------------- MODULE ExpTok -------------------------------
(* Expected tokens.  Gram.tla computes them from the automaton; here they are  *)
(* defined once more from the statements of the grammar alone (what a         *)
(* statement can begin with, what can follow it in its rule), and both must    *)
(* agree with what the real library answers.                                   *)
EXTENDS Gram
Cases == ndJsonDeserialize(IOEnv.CASES)   \* g, states, local (answers), q (queries <<state, invoking states>>), a (answers)

Code(g) == Gs[g].code
TokOfStmt(g, c) ==
  CASE c.k = "tok" -> {c.t}
    [] c.k = "set" -> {x \in Toks(g) : InIv(x, c.iv)}
    [] c.k = "nset" -> {x \in 1..Gs[g].maxtok : ~InIv(x, c.iv)}
    [] c.k = "any" -> 1..Gs[g].maxtok

(* what a statement can begin with; EPS when it can be passed without a token. R is the same for rules *)
RECURSIVE FirstS(_, _, _), FirstSeq(_, _, _, _)
FirstS(g, R, n) ==
  LET c == Code(g)[n] IN
  CASE c.k \in {"tok", "set", "nset", "any"} -> TokOfStmt(g, c)
    [] c.k = "rule" -> R[c.r + 1]
    [] c.k \in {"pred", "act", "prec"} -> {EPS}
    [] c.k = "seq" -> FirstSeq(g, R, c.ks, 1)
    [] c.k = "alt" -> UNION {FirstS(g, R, c.ks[k]) : k \in DOMAIN c.ks} \union (IF c.o = 1 THEN {EPS} ELSE {})
    [] c.k = "star" -> FirstS(g, R, c.b) \union {EPS}
    [] c.k = "plus" -> FirstS(g, R, c.b)
FirstSeq(g, R, ks, k) ==
  IF k > Len(ks) THEN {EPS}
  ELSE LET f == FirstS(g, R, ks[k]) IN IF EPS \in f THEN (f \ {EPS}) \union FirstSeq(g, R, ks, k + 1) ELSE f
Ops(g, R, r) == UNION {FirstS(g, R, Gs[g].prog[r + 1].ks[k]) : k \in DOMAIN Gs[g].prog[r + 1].ks}
Then(f, x) == IF EPS \in f THEN (f \ {EPS}) \union x ELSE f
RECURSIVE FirstFix(_, _)
FirstFix(g, R) ==
  LET N == [i \in DOMAIN R |-> LET p == Gs[g].prog[i] IN
             IF p.lr = 1 THEN Then(FirstS(g, R, p.n), Ops(g, R, i - 1) \union {EPS}) ELSE FirstS(g, R, p.n)]
  IN IF N = R THEN R ELSE FirstFix(g, N)
FirstR == [g \in DOMAIN Gs |-> FirstFix(g, [i \in DOMAIN Gs[g].prog |-> {}])]

(* what can follow statement n inside its rule *)
Kids(c) == IF c.k \in {"seq", "alt"} THEN {c.ks[k] : k \in DOMAIN c.ks} ELSE IF c.k \in {"star", "plus"} THEN {c.b} ELSE {}
ParentOf == [g \in DOMAIN Gs |-> [n \in DOMAIN Code(g) |-> LET P == {m \in DOMAIN Code(g) : n \in Kids(Code(g)[m])} IN IF P = {} THEN 0 ELSE CHOOSE m \in P : TRUE]]
RECURSIVE Fol(_, _), FolUp(_, _)
\* the sequence <primary, loop> of a left-recursive rule is a sequence like any other, and its loop a loop
FolUp(g, n) ==
  LET m == ParentOf[g][n]
      c == Code(g)[m] IN
  CASE c.k = "seq" -> LET j == CHOOSE k \in DOMAIN c.ks : c.ks[k] = n IN Then(FirstSeq(g, FirstR[g], c.ks, j + 1), Fol(g, m))
    [] c.k = "alt" -> Fol(g, m)
    [] c.k \in {"star", "plus"} -> LET f == FirstS(g, FirstR[g], c.b) \ {EPS} IN f \union Fol(g, m)
Fol(g, n) == IF ParentOf[g][n] = 0 THEN {EPS} ELSE FolUp(g, n)
At(g, n) == Then(FirstS(g, FirstR[g], n), Fol(g, n))

\* per state: both definitions agree, for every statement with a state of its own
AgreeAt(g, n) ==
  LET c == Code(g)[n] IN
  /\ c.k /= "seq" /\ c.s >= 0 => Nt(g, c.s) = At(g, n)
  /\ c.k \in {"star", "plus"} => Nt(g, c.lb) = (FirstS(g, FirstR[g], c.b) \ {EPS}) \union Fol(g, n)
StructAgree(g) == \A n \in DOMAIN Code(g) : AgreeAt(g, n)

Set(s) == {s[k] : k \in DOMAIN s}
Ok(c) ==
  LET g == c.g + 1 IN
  /\ \A k \in DOMAIN c.states : Set(c.local[k]) = Nt(g, c.states[k])
  /\ \A k \in DOMAIN c.q : Set(c.a[k]) = Expected(g, c.q[k][1], [j \in DOMAIN c.q[k][2] |-> FollowOf(g, c.q[k][2][j])])

VARIABLES ci, ok, agree, n
Init == ci \in DOMAIN Cases /\ ok = TRUE /\ agree = TRUE /\ n = 0
Next == n = 0 /\ n' = 1 /\ ci' = ci /\ ok' = Ok(Cases[ci]) /\ agree' = StructAgree(Cases[ci].g + 1)
Spec == Init /\ [][Next]_<<ci, ok, agree, n>>
AnswersAreExpected == ok
DefinitionsAgree == agree
=============================================================================
