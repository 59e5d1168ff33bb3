------------------------------ MODULE StreamUse ------------------------------
(* The contract between a recognizer and its input stream, as seen by the     *)
(* stream: a bounded window has to be enough for it.  Positions are kept, and *)
(* may be gone back to, only inside the region protected by a mark.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)   \* use: calls and marks of the driver; valid: no error was reported; first: first position

VARIABLES ci, at,
          pos, hi,        \* position; furthest position looked at or reached
          held,           \* marks: <<id, position>>, oldest first
          dec,            \* <<>> or <<position, marks>> at the start of the running decision
          ok
vars == <<ci, at, pos, hi, held, dec, ok>>
C == Cases[ci]
E == C.use[at]
Max2(a, b) == IF a > b THEN a ELSE b
Inside(p) == held /= <<>> /\ held[1][2] <= p /\ p <= hi

Init == ci \in DOMAIN Cases /\ at = 1 /\ pos = C.first /\ hi = C.first /\ held = <<>> /\ dec = <<>> /\ ok = TRUE
More == ok /\ at <= Len(C.use) /\ at' = at + 1 /\ UNCHANGED ci
Is(k) == More /\ E[1] = k

Look == Is("la") /\ ok' = (/\ E[2] /= 0
                           /\ E[2] < -1 => Inside(E[3])               \* only the previous symbol is at hand without a mark
                           /\ (C.kind = "parser" /\ C.valid = 1 /\ dec = <<>> => E[2] <= 1)
                           /\ (C.kind = "parser" /\ dec = <<>> => E[2] <= 2))
                /\ hi' = Max2(hi, E[3]) /\ UNCHANGED <<pos, held, dec>>
Consume == Is("co") /\ ok' = (E[2] /= -1 /\ E[3] > pos) /\ pos' = E[3] /\ hi' = Max2(hi, E[3]) /\ UNCHANGED <<held, dec>>
Mark == Is("mk") /\ held' = Append(held, <<E[2], pos>>) /\ UNCHANGED <<pos, hi, dec, ok>>
Release == Is("rl") /\ ok' = (held /= <<>> /\ held[Len(held)][1] = E[2])      \* the latest first
                   /\ held' = (IF held = <<>> THEN held ELSE SubSeq(held, 1, Len(held) - 1)) /\ UNCHANGED <<pos, hi, dec>>
Seek == Is("sk") /\ ok' = (E[2] = pos \/ Inside(E[2])) /\ pos' = E[2] /\ UNCHANGED <<hi, held, dec>>
Text == Is("tx") /\ ok' = (E[3] < E[2] \/ (Inside(E[2]) /\ Inside(E[3]))) /\ UNCHANGED <<pos, hi, held, dec>>
\* what lies ahead stays at hand without a mark
Get == Is("gt") /\ ok' = ((pos - 1 <= E[2] /\ E[2] <= hi) \/ Inside(E[2])) /\ UNCHANGED <<pos, hi, held, dec>>
\* a token is asked for, or was delivered; a symbol was matched by the parser: nothing is kept beyond it
Rest == More /\ E[1] \in {"t0", "t1", "m"} /\ ok' = (held = <<>>) /\ UNCHANGED <<pos, hi, held, dec>>
Begin == Is("d0") /\ dec' = <<pos, held>> /\ UNCHANGED <<pos, hi, held, ok>>
Decided == Is("d1") /\ ok' = (dec = <<pos, held>>) /\ dec' = <<>> /\ UNCHANGED <<pos, hi, held>>
Next == Look \/ Consume \/ Mark \/ Release \/ Seek \/ Text \/ Get \/ Rest \/ Begin \/ Decided
Spec == Init /\ [][Next]_vars

ContractHonoured == ok
\* the state of the stream itself stays sane
Sane == \A k \in 1..(Len(held) - 1) : held[k][2] <= hi
=============================================================================
