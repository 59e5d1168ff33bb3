------------------------------ MODULE IvTrace -------------------------------
(* Recorded scripts of interval set operations must agree with sets.        *)
EXTENDS IvSet, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, r, l, ok
vars == <<ci, r, l, ok>>
Init == /\ ci \in 1..Len(Cases) /\ r = Start /\ l = 1
        /\ ok = (Cases[ci].rel = [i \in 1..Len(Cases[ci].pairs) |-> Rel(Cases[ci].pairs[i])])
Next == /\ ok /\ l <= Len(Cases[ci].ev)
        /\ LET c == Cases[ci]
               z == Step(r, c.ops[l])
           IN  /\ r' = z
               /\ ok' = (c.ev[l] = View(z, c.ops[l][2] + 1, c.u[1], c.u[2]))
        /\ l' = l + 1 /\ ci' = ci
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
