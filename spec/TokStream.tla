----------------------------- MODULE TokStream ------------------------------
(***************************************************************************)
(* Token streams.  x.toks is the sequence the source produces, as          *)
(* <<type, channel, text>>, without the end-of-file token at index n.      *)
(* x.kind: "common" and "default" show one channel of a buffered sequence, *)
(* "unbuf" and "buf" show every token.  The state is the cursor p (an      *)
(* index 0..n) and the positions of the open marks.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

REFUSED == <<-99>>
EOFTOK == <<-1, 0, <<60, 69, 79, 70, 62>>>>

N(x) == Len(x.toks)
Filtered(x) == x.kind \in {"common", "default"}
On(x, i) == i = N(x) \/ ~Filtered(x) \/ x.toks[i + 1][2] = x.chan[1]

\* first visible index >= i
RECURSIVE Fwd(_, _)
Fwd(x, i) == IF i >= N(x) THEN N(x) ELSE IF On(x, i) THEN i ELSE Fwd(x, i + 1)
\* last visible index <= i, or -1
RECURSIVE Bwd(_, _)
Bwd(x, i) == IF i < 0 THEN -1 ELSE IF On(x, i) THEN i ELSE Bwd(x, i - 1)

RECURSIVE Ahead(_, _, _)
Ahead(x, p, k) == IF k = 1 THEN p ELSE Ahead(x, Fwd(x, p + 1), k - 1)
RECURSIVE Behind(_, _, _)
Behind(x, p, k) == IF k = 0 \/ p < 0 THEN p ELSE Behind(x, Bwd(x, p - 1), k - 1)
At(x, p, k) == IF k > 0 THEN Ahead(x, p, k) ELSE Behind(x, p, -k)

Tok(x, i) == IF i = N(x) THEN <<-1, 0, i, i, EOFTOK[3]>> ELSE <<x.toks[i + 1][1], x.toks[i + 1][2], i, i, <<x.toks[i + 1][3]>>>>
Type(x, i) == IF i = N(x) THEN -1 ELSE x.toks[i + 1][1]
RECURSIVE Text(_, _, _)
Text(x, a, b) == IF a > b \/ a >= N(x) THEN <<>> ELSE <<x.toks[a + 1][3]>> \o Text(x, a + 1, b)
RECURSIVE Types(_, _)
Types(x, p) == IF p >= N(x) THEN <<>> ELSE <<Type(x, p)>> \o Types(x, Fwd(x, p + 1))

Start(x) == [p |-> Fwd(x, 0), marks |-> <<>>]

Step(x, s, op) ==
  LET p == s.p
      keep(r) == [s |-> s, res |-> r]
      move(i) == [s |-> [s EXCEPT !.p = i], res |-> <<>>]
  IN
  CASE op[1] = "lt" -> LET i == At(x, p, op[2]) IN keep(IF i < 0 THEN <<>> ELSE Tok(x, i))
    [] op[1] = "la" -> LET i == At(x, p, op[2]) IN keep(<<IF i < 0 THEN 0 ELSE Type(x, i)>>)
    [] op[1] = "consume" -> IF p >= N(x) THEN keep(REFUSED) ELSE move(Fwd(x, p + 1))
    [] op[1] = "seek" -> move(Fwd(x, op[2]))
    [] op[1] = "reset" -> move(Fwd(x, 0))
    [] op[1] = "mark" -> [s |-> [s EXCEPT !.marks = Append(s.marks, p)], res |-> <<>>]
    [] op[1] = "release" -> [s |-> [s EXCEPT !.marks = SubSeq(s.marks, 1, Len(s.marks) - 1)], res |-> <<>>]
    [] op[1] = "get" -> keep(Tok(x, op[2]))
    [] op[1] \in {"text", "ttext"} -> keep(Text(x, op[2], op[3]))
    [] op[1] = "alltext" -> keep(Text(x, 0, op[2] - 1))
    [] op[1] = "iter" -> [s |-> [s EXCEPT !.p = N(x)], res |-> Types(x, p)]
    [] op[1] = "titer" -> [s |-> [s EXCEPT !.p = N(x)], res |-> IF Filtered(x) THEN Types(x, p) ELSE Types(x, p) \o <<-1>>]

\* operations the documentation allows in state s
Ops(x, s) == {<<"lt", k>> : k \in {-2, -1, 1, 2, 3}} \union {<<"consume">>, <<"iter">>, <<"mark">>}
             \union (IF Filtered(x) THEN {<<"seek", j>> : j \in 0..N(x)} \union {<<"reset">>}
                     ELSE IF s.marks = <<>> THEN {} ELSE {<<"seek", j>> : j \in s.marks[1]..N(x)})
             \union (IF s.marks = <<>> THEN {} ELSE {<<"release">>})
-----------------------------------------------------------------------------
CONSTANTS MaxLen
VARIABLES x, s, last, prev
fvars == <<x, s, last, prev>>
FInit == /\ \E n \in 0..MaxLen, k \in {"common", "unbuf"} :
              x \in [toks : [1..n -> {<<1, 0, 97>>, <<2, 1, 98>>}], kind : {k}, chan : {<<0>>, <<1>>}]
         /\ s = Start(x) /\ last = <<"reset">> /\ prev = s
FNext == \E op \in Ops(x, s) : /\ Len(s.marks) < 2 \/ op # <<"mark">>
                               /\ last' = op /\ prev' = s /\ s' = Step(x, s, op).s /\ x' = x
FSpec == FInit /\ [][FNext]_fvars
\* the cursor always rests on a visible token or end of file
OnChannel == 0 <= s.p /\ s.p <= N(x) /\ On(x, s.p)
\* LT(1) before a consume is LT(-1) after it
OrderedLookahead == last = <<"consume">> /\ prev.p < N(x) => Behind(x, s.p, 1) = prev.p /\ s.p > prev.p
\* looking k ahead is the same as consuming k-1 times
LookIsRead == \A k \in 1..3 : Ahead(x, s.p, k + 1) = Ahead(x, Fwd(x, s.p + 1), k)
\* looking back never goes before the first visible token, and inverts looking ahead
BackInverts == \A k \in 1..2 : Ahead(x, s.p, k + 1) < N(x) => Behind(x, Ahead(x, s.p, k + 1), k) = s.p
=============================================================================
