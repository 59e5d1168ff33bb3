------------------------------ MODULE AtnTrace ------------------------------
(* What the real deserializer made of each string must be what AtnFormat    *)
(* decodes; what AtnFormat refuses must have been refused.                  *)
EXTENDS AtnFormat, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Uuids == JsonDeserialize(IOEnv.UUIDS)
VARIABLES ci, phase, ok
vars == <<ci, phase, ok>>
Init == ci \in 1..Len(Cases) /\ phase = "start" /\ ok = TRUE
Check == LET c == Cases[ci]
             ref == Refused(c.serial, Uuids)
         IN  /\ phase = "start"
             /\ phase' = IF ref THEN "refused" ELSE "decoded"
             /\ ok' = IF ref THEN c.refused = 1 ELSE c.refused = 0 /\ c.d = Decode(c.serial, Uuids, c.probes)
             /\ ci' = ci
Spec == Init /\ [][Check]_vars
Conforms == ok
\* a string built from an automaton decodes; it is not refused by the specification itself
Expected == (phase = "decoded" /\ Cases[ci].good = 0) => FALSE
NotRefused == (phase = "refused" /\ Cases[ci].good = 1) => FALSE
=============================================================================
