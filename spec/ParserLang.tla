----------------------------- MODULE ParserLang ------------------------------
(* Acceptance: a recorded parse is free of errors exactly when the tokens are *)
(* a sentence of the grammar (Gram!Derives), and it came to an end.           *)
EXTENDS Gram
Cases == ndJsonDeserialize(IOEnv.CASES)   \* g, w (token types), start, err (number of errors reported), done

VARIABLES ci, ok, n
Init == ci \in DOMAIN Cases /\ ok = TRUE /\ n = 0
Next == /\ n = 0 /\ n' = 1 /\ ci' = ci
        /\ LET c == Cases[ci]
               g == c.g + 1 IN
           ok' = (c.done = 1 /\ ((c.err = 0) <=> Derives(g, c.w, Table(g, c.w), c.start)))
Spec == Init /\ [][Next]_<<ci, ok, n>>
AcceptsLanguage == ok
=============================================================================
