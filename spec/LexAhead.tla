------------------------------ MODULE LexAhead ------------------------------
(* How far a lexer may look: to the symbol that ends the longest prefix any    *)
(* rule can still match, and after an error to the symbol behind the one it    *)
(* dropped.                                                                    *)
EXTENDS Lexer, Json, IOUtils
Gs == JsonDeserialize(IOEnv.GRAMMARS)
Cases == ndJsonDeserialize(IOEnv.CASES)   \* far: the furthest symbol looked at during each call, from 0

VARIABLES ci, q, l, far, ok
vars == <<ci, q, l, far, ok>>
Max2(a, b) == IF a > b THEN a ELSE b
Init == ci \in 1..Len(Cases) /\ q = Q0 /\ l = 1 /\ far = 0 /\ ok = TRUE
More == ok /\ l <= Len(Cases[ci].far)
Out(z, f) == \* z.ev ends with a token if the call returns
  LET done == \E k \in DOMAIN z.ev : z.ev[k][1] = "tok" IN
  /\ q' = z.q /\ ci' = ci
  /\ ok' = (done => Cases[ci].far[l] <= f)
  /\ l' = IF done THEN l + 1 ELSE l
  /\ far' = IF done THEN 0 ELSE f
Eof == More /\ q.hit /\ ~q.cont /\ Out(EmitEof(Cases[ci], q), Max2(far, q.pos))
Match ==
  /\ More /\ ~(q.hit /\ ~q.cont)
  /\ LET x == Cases[ci]
         g == Gs[x.g + 1]
         m == MatchAt(g, x, q.mode, q.pos, q.lc, [flag |-> q.flag, ms |-> q.ms])
         z == MatchStep(g, x, q) IN
     Out(z, Max2(far, Max2(m.p, z.q.pos)))
Next == Eof \/ Match
Spec == Init /\ [][Next]_vars
LooksNoFurther == ok
=============================================================================
