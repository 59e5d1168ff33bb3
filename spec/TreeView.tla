------------------------------ MODULE TreeView -------------------------------
(* What a finished tree shows to the code that uses it: printed forms, the    *)
(* query functions of a rule node, and visitors.  Judged on recordings of the *)
(* real tree; the visitors are small machines run over the same tree.         *)
(*   <<0, rule, alt, start, stop, inv, a, b, text, children>>   rule node     *)
(*   <<1 | 2, index, type, a, b, text>>                         leaf, error   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Part       \* "query" or "visit"
Cases == ndJsonDeserialize(IOEnv.CASES)   \* tree, rn (rule names), chars (of each token), nodes, visits, lim, types

RECURSIVE Join(_, _), Flat(_)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Esc(ch) == CASE ch = "\t" -> "\\t" [] ch = "\n" -> "\\n" [] ch = "\r" -> "\\r" [] OTHER -> ch
Positions(t, P(_)) == SelectSeq([k \in DOMAIN t[10] |-> k], LAMBDA k : P(t[10][k]))
KindOf(t) == t[2] % 3

(* ----------------------------- printed forms ---------------------------- *)
Name(c, t) == c.rn[t[2] + 1]
Text(c, t) == IF t[1] = 0 THEN Name(c, t) \o (IF t[3] /= 0 THEN ":" \o ToString(t[3]) ELSE "")
              ELSE IF t[2] >= 0 /\ t[2] < Len(c.chars) THEN Join([k \in DOMAIN c.chars[t[2] + 1] |-> Esc(c.chars[t[2] + 1][k])], "")
              ELSE t[6]
RECURSIVE Lisp(_, _)
Lisp(c, t) == IF t[1] /= 0 \/ t[10] = <<>> THEN Text(c, t)
              ELSE "(" \o Join(<<Text(c, t)>> \o [k \in DOMAIN t[10] |-> Lisp(c, t[10][k])], " ") \o ")"
\* path: the node and the nodes above it, innermost first
States(path) == "[" \o Join([k \in DOMAIN SelectSeq(path, LAMBDA t : t[6] /= -1) |-> ToString(SelectSeq(path, LAMBDA t : t[6] /= -1)[k][6])], " ") \o "]"
Names(c, path) == "[" \o Join([k \in DOMAIN path |-> Name(c, path[k])], " ") \o "]"

\* the k-th of a list, 0 when there is none
Nths(all) == [k \in 1..(Len(all) + 2) |-> IF k <= Len(all) THEN all[k] ELSE 0]
View(c, t, path) ==
  [lisp |-> Lisp(c, t),
   inv |-> States(path),
   names |-> Names(c, path),
   upto |-> Names(c, SubSeq(path, 1, Len(path) - 1)),
   toks |-> [k \in DOMAIN c.types |-> LET a == Positions(t, LAMBDA x : x[1] = 1 /\ x[3] = c.types[k]) IN <<c.types[k], a, Nths(a)>>],
   kids |-> [k \in 1..3 |-> LET a == Positions(t, LAMBDA x : x[1] = 0 /\ KindOf(x) = k - 1) IN <<k - 1, a, Nths(a)>>]]
RECURSIVE Views(_, _, _)
Views(c, t, up) == IF t[1] /= 0 THEN <<>>
                   ELSE <<View(c, t, <<t>> \o up)>> \o Flat([k \in DOMAIN t[10] |-> Views(c, t[10][k], <<t>> \o up)])

(* -------------------------------- visitors ------------------------------ *)
LeafEv(t) == <<IF t[1] = 1 THEN "t" ELSE "r", t[2]>>
RECURSIVE Leaves(_), Every(_)
Leaves(t) == IF t[1] /= 0 THEN <<LeafEv(t)>> ELSE Flat([k \in DOMAIN t[10] |-> Leaves(t[10][k])])
Every(t) == IF t[1] /= 0 THEN <<LeafEv(t)>>
            ELSE <<<<"(", KindOf(t), t[2]>>>> \o Flat([k \in DOMAIN t[10] |-> Every(t[10][k])]) \o <<<<")", KindOf(t), t[2]>>>>
\* a visitor with results: one step per child, asked before each whether to go on
RECURSIVE Fold(_, _), FoldKids(_, _, _, _)
Fold(c, t) == CASE t[1] = 1 -> <<t[3]>> [] t[1] = 2 -> <<-100 - t[3]>> [] OTHER -> FoldKids(c, t[10], 1, <<>>)
FoldKids(c, kids, k, cur) == IF k > Len(kids) \/ Len(cur) >= c.lim \/ (kids[k][1] = 1 /\ kids[k][3] = c.lim % 7) THEN cur
                             ELSE LET x == Fold(c, kids[k]) IN FoldKids(c, kids, k + 1, cur \o <<Len(x)>> \o x)
RECURSIVE Last(_)
Last(t) == CASE t[1] = 1 -> <<t[2]>> [] t[1] = 2 -> <<>>
             [] OTHER -> (IF t[10] = <<>> THEN <<>> ELSE Last(t[10][Len(t[10])])) \o <<-10 - KindOf(t)>>
VisitsOf(c) == [leaves |-> Leaves(c.tree), every |-> Every(c.tree), kids |-> Flat([k \in DOMAIN c.tree[10] |-> Every(c.tree[10][k])]),
                fold |-> Fold(c, c.tree), last |-> Last(c.tree)]

VARIABLES ci, ok, n
Init == ci \in DOMAIN Cases /\ ok = TRUE /\ n = 0
Right(c) == IF Part = "query" THEN c.nodes = Views(c, c.tree, <<>>) ELSE c.visits = VisitsOf(c)
Next == n = 0 /\ n' = 1 /\ ci' = ci /\ ok' = Right(Cases[ci])
Spec == Init /\ [][Next]_<<ci, ok, n>>
ShowsTheTree == ok
=============================================================================
