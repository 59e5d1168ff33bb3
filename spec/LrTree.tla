------------------------------- MODULE LrTree -------------------------------
(* Operator precedence and associativity, stated on finished trees and read   *)
(* off the operator table alone (no automaton, no precedence levels in calls):*)
(* alternatives of the expression rule, first binds tightest, as              *)
(*   <<kind, op, op2, right>>  kind "bin" "pre" "suf" "sufx" "tern" "atom" "par" *)
(* In a tree of the rule:                                                      *)
(*   - the last operand of a binary or ternary operator of level p contains, on *)
(*     its left edge, only operators that bind tighter (equal if right-assoc.),*)
(*     that of a prefix operator only operators at least as tight;             *)
(*   - the first operand of an operator of level p does not end in an operand  *)
(*     that should have taken the operator itself.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)   \* alts, rule (number of the expression rule), tree

Lev(c, a) == Len(c.alts) + 1 - a
IsLeaf(t, x) == t[1] = 1 /\ t[3] = x
IsE(c, t) == t[1] = 0 /\ t[2] = c.rule
\* the alternative a node was built by; 0: none fits
Shape(c, a, ch) ==
  LET k == c.alts[a][1]
      x == c.alts[a][2]
      y == c.alts[a][3] IN
  CASE k = "bin" -> Len(ch) = 3 /\ IsE(c, ch[1]) /\ IsLeaf(ch[2], x) /\ IsE(c, ch[3])
    [] k = "pre" -> Len(ch) = 2 /\ IsLeaf(ch[1], x) /\ IsE(c, ch[2])
    [] k = "suf" -> Len(ch) = 2 /\ IsE(c, ch[1]) /\ IsLeaf(ch[2], x)
    [] k = "sufx" -> Len(ch) = 4 /\ IsE(c, ch[1]) /\ IsLeaf(ch[2], x) /\ IsE(c, ch[3]) /\ IsLeaf(ch[4], y)
    [] k = "tern" -> Len(ch) = 5 /\ IsE(c, ch[1]) /\ IsLeaf(ch[2], x) /\ IsE(c, ch[3]) /\ IsLeaf(ch[4], y) /\ IsE(c, ch[5])
    [] k = "atom" -> Len(ch) = 1 /\ IsLeaf(ch[1], x)
    [] k = "par" -> Len(ch) = 3 /\ IsLeaf(ch[1], x) /\ IsE(c, ch[2]) /\ IsLeaf(ch[3], y)
AltOf(c, t) == LET S == {a \in DOMAIN c.alts : Shape(c, a, t[10])} IN IF S = {} THEN 0 ELSE CHOOSE a \in S : TRUE
HasLeft(c, a) == c.alts[a][1] \in {"bin", "suf", "sufx", "tern"}
HasRight(c, a) == c.alts[a][1] \in {"bin", "pre", "tern"}
\* the least level allowed in the last operand of alternative a
Need(c, a) == IF c.alts[a][1] = "pre" \/ c.alts[a][4] = 1 THEN Lev(c, a) ELSE Lev(c, a) + 1
Last(t) == t[10][Len(t[10])]

\* operators on the left edge of t
RECURSIVE LeftEdge(_, _)
LeftEdge(c, t) == LET a == AltOf(c, t) IN IF a /= 0 /\ HasLeft(c, a) THEN {a} \union LeftEdge(c, t[10][1]) ELSE {}
\* levels required by the operands t ends in
RECURSIVE RightNeeds(_, _)
RightNeeds(c, t) == LET a == AltOf(c, t) IN IF a /= 0 /\ HasRight(c, a) THEN {Need(c, a)} \union RightNeeds(c, Last(t)) ELSE {}

RECURSIVE NodeOk(_, _)
NodeOk(c, t) ==
  IF t[1] /= 0 THEN TRUE
  ELSE /\ \A k \in DOMAIN t[10] : NodeOk(c, t[10][k])
       /\ t[2] = c.rule =>
            LET a == AltOf(c, t) IN
            /\ a /= 0
            /\ HasRight(c, a) => \A b \in LeftEdge(c, Last(t)) : Lev(c, b) >= Need(c, a)
            /\ HasLeft(c, a) => \A q \in RightNeeds(c, t[10][1]) : q > Lev(c, a)
VARIABLES ci, ok, n
Init == ci \in DOMAIN Cases /\ ok = TRUE /\ n = 0
Next == n = 0 /\ n' = 1 /\ ci' = ci /\ ok' = NodeOk(Cases[ci], Cases[ci].tree)
Spec == Init /\ [][Next]_<<ci, ok, n>>
BindsRight == ok
=============================================================================
