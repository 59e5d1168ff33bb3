------------------------------ MODULE GuardAlg -------------------------------
(* Guards combined during prediction: whatever form the combination takes, it *)
(* has the truth value of the conjunctions and disjunctions that were asked   *)
(* for, in every environment.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)   \* e: the expression, r: the combination the library made

RECURSIVE Val(_, _)
Val(e, v) ==
  CASE e[1] = "n" -> TRUE
    [] e[1] = "p" -> <<e[2], e[3], e[4]>> \in v.p
    [] e[1] = "q" -> e[2] >= v.lev
    [] e[1] = "and" -> Val(e[2], v) /\ Val(e[3], v)
    [] e[1] = "or" -> Val(e[2], v) \/ Val(e[3], v)
    [] e[1] = "all" -> \A k \in DOMAIN e[2] : Val(e[2][k], v)
    [] e[1] = "any" -> \E k \in DOMAIN e[2] : Val(e[2][k], v)
RECURSIVE Atoms(_)
Atoms(e) ==
  CASE e[1] = "p" -> {<<e[2], e[3], e[4]>>}
    [] e[1] \in {"and", "or"} -> Atoms(e[2]) \union Atoms(e[3])
    [] e[1] \in {"all", "any"} -> UNION {Atoms(e[2][k]) : k \in DOMAIN e[2]}
    [] OTHER -> {}
VARIABLES ci, ok, n
Init == ci \in DOMAIN Cases /\ ok = TRUE /\ n = 0
Next == /\ n = 0 /\ n' = 1 /\ ci' = ci
        /\ LET c == Cases[ci] IN
           ok' = \A T \in SUBSET (Atoms(c.e) \union Atoms(c.r)) : \A l \in 0..4 : LET v == [p |-> T, lev |-> l] IN Val(c.e, v) = Val(c.r, v)
Spec == Init /\ [][Next]_<<ci, ok, n>>
SameTruth == ok
=============================================================================
