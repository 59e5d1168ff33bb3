------------------------------ MODULE TokTrace ------------------------------
(* Recorded scripts of token stream operations must be behaviours of TokStream *)
EXTENDS Integers, Sequences, Json, IOUtils
T == INSTANCE TokStream WITH MaxLen <- 0, x <- 0, s <- 0, last <- 0, prev <- 0
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, s, l, ok
vars == <<ci, s, l, ok>>
Init == ci \in 1..Len(Cases) /\ s = T!Start(Cases[ci]) /\ l = 1 /\ ok = TRUE
Next == /\ ok /\ l <= Len(Cases[ci].ev)
        /\ LET c == Cases[ci]
               z == T!Step(c, s, c.ev[l][1])
           IN  /\ s' = z.s
               /\ ok' = (c.ev[l][2] = z.res /\ (c.ev[l][3] = z.s.p))
        /\ l' = l + 1 /\ ci' = ci
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
