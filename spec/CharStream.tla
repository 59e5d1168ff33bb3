----------------------------- MODULE CharStream -----------------------------
(***************************************************************************)
(* A character stream is a cursor p over the symbols w[1..n] of the input. *)
(* off[i+1] is the offset the representation reports for position i.       *)
(* Step(x, p, op) is the effect of an operation: new cursor and answer.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

EOFSYM == -1
REFUSED == <<-99>>

N(x) == Len(x.w)
\* k-th next (k > 0) or k-th previous (k < 0) symbol; end of file outside the input
Look(x, p, k) == LET i == IF k > 0 THEN p + k ELSE p + k + 1 IN IF 1 <= i /\ i <= N(x) THEN x.w[i] ELSE EOFSYM

Step(x, p, op) ==
  CASE op[1] = "la"      -> [p |-> p, res |-> <<Look(x, p, op[2])>>]
    [] op[1] = "consume" -> IF p < N(x) THEN [p |-> p + 1, res |-> <<>>] ELSE [p |-> p, res |-> REFUSED]
    [] op[1] = "seek"    -> [p |-> op[2], res |-> <<>>]
    [] op[1] = "size"    -> [p |-> p, res |-> <<x.off[N(x) + 1]>>]
    [] op[1] \in {"mark", "release"} -> [p |-> p, res |-> <<>>]
    [] op[1] \in {"text", "texte"} -> [p |-> p, res |-> SubSeq(x.w, op[2] + 1, op[3] + 1)]
    [] op[1] = "texto"   -> [p |-> p, res |-> SubSeq(x.w, op[2] + 1, N(x))]
    [] op[1] = "iter"    -> [p |-> N(x), res |-> SubSeq(x.w, p + 1, N(x))]
    [] op[1] = "reset"   -> [p |-> 0, res |-> <<>>]

Ops(x, p) == {<<"la", k>> : k \in {-3, -2, -1, 1, 2, 3}} \union {<<"consume">>, <<"mark">>, <<"release">>, <<"iter">>, <<"reset">>, <<"size">>}
             \union {<<"seek", j>> : j \in 0..N(x)} \union {<<"text", a, b>> : a \in 0..N(x) - 1, b \in 0..N(x) - 1}

-----------------------------------------------------------------------------
(* What the documentation of streams promises, checked on all behaviours of small instances *)
CONSTANTS Alpha, MaxLen
VARIABLES x, p, last, before
fvars == <<x, p, last, before>>
FInit == /\ \E n \in 0..MaxLen : x \in [w : [1..n -> Alpha], off : {[i \in 1..n + 1 |-> i - 1]}]
         /\ p = 0 /\ last = <<"reset">> /\ before = 0
FNext == \E op \in Ops(x, p) : /\ last' = op /\ before' = p /\ p' = Step(x, p, op).p /\ x' = x
FSpec == FInit /\ [][FNext]_fvars
InRange == 0 <= p /\ p <= N(x)
OrderedLookahead == last = <<"consume">> /\ p # before => Look(x, before, 1) = Look(x, p, -1) /\ p = before + 1
Refusal == last = <<"consume">> => (p = before <=> before = N(x))
ReadOnly == last[1] \in {"la", "mark", "release", "text", "size"} => p = before
=============================================================================
