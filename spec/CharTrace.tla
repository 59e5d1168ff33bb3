----------------------------- MODULE CharTrace ------------------------------
(* Recorded scripts of stream operations must be behaviours of CharStream.  *)
EXTENDS Integers, Sequences, Json, IOUtils
C == INSTANCE CharStream WITH Alpha <- {}, MaxLen <- 0, x <- 0, p <- 0, last <- 0, before <- 0
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, p, l, ok
vars == <<ci, p, l, ok>>
Init == ci \in 1..Len(Cases) /\ p = 0 /\ l = 1 /\ ok = TRUE
Next == /\ ok /\ l <= Len(Cases[ci].ev)
        /\ LET c == Cases[ci]
               z == C!Step(c, p, c.ops[l])
           IN  /\ p' = z.p
               /\ ok' = (c.ev[l][2] = z.res /\ c.ev[l][3] = c.off[z.p + 1])
        /\ l' = l + 1 /\ ci' = ci
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
