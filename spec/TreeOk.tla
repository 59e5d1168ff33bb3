------------------------------- MODULE TreeOk --------------------------------
(* What a finished parse tree must look like whatever the grammar and however *)
(* the input was broken: judged on recorded trees of the real parser.         *)
(*   <<0, rule, alt, start, stop, inv, a, b, text, children>>   rule node     *)
(*   <<1 | 2, index, type, a, b, text>>                         leaf, error   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Judge      \* "tokens": no token is lost; "shape": spans, order, text, parents
Cases == ndJsonDeserialize(IOEnv.CASES)   \* vis (indices of the tokens the parser sees), eof (index of EOF), txt (text of every token), tree, ev, bad

RECURSIVE Leaves(_), LeavesAll(_)
LeavesAll(ts) == IF ts = <<>> THEN <<>> ELSE Leaves(Head(ts)) \o LeavesAll(Tail(ts))
Leaves(t) == IF t[1] = 0 THEN LeavesAll(t[10]) ELSE <<t>>
RECURSIVE Nodes(_), NodesAll(_)
NodesAll(ts) == IF ts = <<>> THEN <<>> ELSE Nodes(Head(ts)) \o NodesAll(Tail(ts))
Nodes(t) == IF t[1] = 0 THEN <<t>> \o NodesAll(t[10]) ELSE <<>>
Ixs(c, ls) == [k \in DOMAIN SelectSeq(ls, LAMBDA x : x[2] >= 0 /\ x[2] < c.eof) |-> SelectSeq(ls, LAMBDA x : x[2] >= 0 /\ x[2] < c.eof)[k][2]]

Errs(c) == {k \in DOMAIN c.ev : c.ev[k][1] = "e"}
End(c) == c.ev[Len(c.ev)]

(* every token before the place where the start rule stopped is in the tree once, in order; an error leaf means a reported error *)
TokensOk(c) ==
  LET ls == Leaves(c.tree)
      e == End(c) IN
  /\ e[1] = "end" /\ e[2] = "ok"
  /\ Ixs(c, ls) = SelectSeq(c.vis, LAMBDA x : x < e[3])
  /\ \A k \in DOMAIN ls : ls[k][1] = 2 => Errs(c) /= {}
  /\ \A k \in DOMAIN ls : ls[k][2] < 0 => Errs(c) /= {} /\ ls[k][1] = 2
  \* EOF can be matched more than once but nothing comes after it
  /\ \A k, m \in DOMAIN ls : k < m /\ ls[k][2] = c.eof => ls[m][2] = c.eof \/ ls[m][2] < 0

RECURSIVE Concat(_)
Concat(ts) == IF ts = <<>> THEN "" ELSE (IF Head(ts)[1] = 0 THEN Head(ts)[9] ELSE Head(ts)[6]) \o Concat(Tail(ts))
\* the text of a leaf is that of its token, its span is its token
LeafOk(c, l) ==
  /\ l[2] >= 0 => /\ l[4] = l[2] /\ l[5] = l[2] /\ l[6] = c.txt[l[2] + 1] /\ l[3] = c.ty[l[2] + 1]
NodeOk(c, t) ==
  LET ls == SelectSeq(Leaves(t), LAMBDA x : x[2] >= 0)
      kids == t[10] IN
  /\ t[9] = Concat(kids)
  /\ t[7] = t[4] /\ t[8] = t[5]
  /\ IF ls = <<>> THEN t[5] < t[4] \/ t[4] = c.eof
     ELSE /\ t[4] = ls[1][2]
          /\ \/ t[5] = ls[Len(ls)][2]
             \* a left-recursive rule that matches end of file ends at the token before it, and so does a rule that found end of file by repair
             \/ /\ ls[Len(ls)][2] = c.eof /\ (c.lr[t[2] + 1] = 1 \/ Errs(c) /= {})
                /\ LET m == SelectSeq(ls, LAMBDA x : x[2] < c.eof) IN t[5] = IF m = <<>> THEN c.last ELSE m[Len(m)][2]
  /\ \A k \in DOMAIN kids : kids[k][1] = 0 => kids[k][6] >= 0
  \* children follow each other, inside the span of their parent
  /\ \A k \in 1..(Len(ls) - 1) : ls[k][2] < ls[k + 1][2] \/ ls[k][2] = c.eof
ShapeOk(c) ==
  LET ls == Leaves(c.tree)
      ns == Nodes(c.tree) IN
  /\ c.bad = <<>>
  /\ c.tree[6] = -1
  /\ \A k \in DOMAIN ls : LeafOk(c, ls[k])
  /\ \A k \in DOMAIN ns : NodeOk(c, ns[k])

VARIABLES ci, ok, n
Init == ci \in DOMAIN Cases /\ ok = TRUE /\ n = 0
Next == /\ n = 0 /\ n' = 1 /\ ci' = ci
        /\ ok' = IF Judge = "tokens" THEN TokensOk(Cases[ci]) ELSE ShapeOk(Cases[ci])
Spec == Init /\ [][Next]_<<ci, ok, n>>
TreeIsRight == ok
=============================================================================
