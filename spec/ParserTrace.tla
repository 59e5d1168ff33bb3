----------------------------- MODULE ParserTrace -----------------------------
(* Trace validation: a recorded parse of the real parser must be the          *)
(* behaviour of ParserRun, event by event, and end with the same tree.        *)
EXTENDS ParserRun
CONSTANTS Kinds,    \* the kinds of events compared
          CmpTree   \* whether the finished tree is compared

VARIABLES ci, K, M, T, l, ok, n
vars == <<ci, K, M, T, l, ok, n>>
\* the behaviour of a case is deterministic: the number of steps identifies the state
View == <<ci, n, ok>>

Pick(evs) == SelectSeq(evs, LAMBDA e : e[1] \in Kinds)
Tr == Cases[ci].ev
\* a decision may settle without looking as far as the simulation does, never by looking further
Same(e, x) == IF x[1] = "far" /\ e[1] = "far" THEN e[2] <= x[2] ELSE e = x
Fits(evs, at) == at + Len(evs) <= Len(Tr) /\ \A k \in DOMAIN evs : Same(Tr[at + k], evs[k])

Init ==
  /\ ci \in DOMAIN Cases
  /\ LET R == Begin(ci) IN
       /\ K = R.K
       /\ M = [R.M EXCEPT !.ev = <<>>]
       /\ LET E == Pick(R.M.ev) IN
            /\ l = Len(E)
            /\ ok = (Len(E) <= Len(Cases[ci].ev) /\ \A k \in DOMAIN E : Cases[ci].ev[k] = E[k])
  /\ T = <<>>
  /\ n = 0

Prepare == \* what every rule can derive from every position
  /\ n = 0 /\ n' = 1
  /\ T' = IF Oracle \in {"min", "amb"} THEN Table(Cases[ci].g + 1, Ws[ci]) ELSE <<>>
  \* the lowest viable alternative says nothing about inputs outside the language
  /\ IF Oracle \in {"min", "amb"} /\ ~Derives(Cases[ci].g + 1, Ws[ci], T', Cases[ci].start)
     THEN K' = <<>> /\ l' = Len(Cases[ci].ev) ELSE UNCHANGED <<K, l>>
  /\ UNCHANGED <<ci, M, ok>>

Running ==
  /\ ok /\ K /= <<>> /\ n > 0 /\ n' = n + 1
  /\ LET R == Step(ci, K, M, T)
         E == Pick(R.M.ev) IN
       /\ K' = R.K
       /\ M' = [R.M EXCEPT !.ev = <<>>]
       /\ l' = l + Len(E)
       /\ ok' = Fits(E, l)
  /\ UNCHANGED <<ci, T>>

Finish ==
  /\ ok /\ K = <<>> /\ l < Len(Tr) /\ n' = n + 1
  /\ l' = l + 1
  /\ ok' = /\ l + 1 = Len(Tr) /\ Tr[l + 1] = EndEv(ci, M)
           /\ (CmpTree /\ Cases[ci].tree = 1 /\ M.er = NoErr => Cases[ci].tree0 = TreeOf(ci, M, <<0, M.root>>))
  /\ UNCHANGED <<ci, K, M, T>>
Next == Prepare \/ Running \/ Finish
Spec == Init /\ [][Next]_vars

Conforms == ok
=============================================================================
