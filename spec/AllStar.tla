------------------------------- MODULE AllStar -------------------------------
(* Adaptive prediction: the context-insensitive (SLL) simulation of a         *)
(* decision, the full-context (LL) simulation it falls back to, predicates,   *)
(* precedence filter, ambiguity and context-sensitivity reports, and the      *)
(* choice made when no alternative is viable.  No caches: this is what every  *)
(* run must give whatever was cached before.                                  *)
(*                                                                            *)
(* A configuration is <<s, a, c, m, o, f>>: automaton state, alternative,     *)
(* set of call stacks (sequences of return states, top first), guard,         *)
(* "left the rule of the decision", "precedence filter suppressed".           *)
(* The empty stack means: at the bottom of the known stack, i.e. any context  *)
(* for SLL and the end of the start rule for LL.                              *)
EXTENDS Gram

(* ------------------------------- guards --------------------------------- *)
\* <<0>> none, <<1, rule, index, ctxdep>> predicate, <<2, p>> precedence, <<3, S>> and, <<4, S>> or
NoGuard == <<0>>
Reduce(S, low) == \* of several precedence conditions one implies the others
  LET P == {x[2] : x \in {y \in S : y[1] = 2}}
  IN IF P = {} THEN S ELSE {y \in S : y[1] /= 2} \union {<<2, IF low THEN Min(P) ELSE Max(P)>>}
Wrap(tag, S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE <<tag, S>>
Parts(tag, m) == IF m[1] = tag THEN m[2] ELSE {m}
And(a, b) == IF a = NoGuard THEN b ELSE IF b = NoGuard THEN a ELSE Wrap(3, Reduce(Parts(3, a) \union Parts(3, b), TRUE))
Or(a, b) == IF a = NoGuard \/ b = NoGuard THEN NoGuard ELSE Wrap(4, Reduce(Parts(4, a) \union Parts(4, b), FALSE))

\* the predicates the harness installs: kind, argument; v = [la, cnt, ctx, start, inv, prec]
PredVal(pv, i, cd, v) ==
  LET k == IF i + 1 \in DOMAIN pv THEN pv[i + 1] ELSE <<0, 1>> IN
  CASE k[1] = 0 -> k[2] /= 0
    [] k[1] = 1 -> v.la = k[2]
    [] k[1] = 2 -> v.cnt % 2 = k[2]
    [] k[1] = 3 -> cd = 1 /\ v.start % 2 = k[2]
    [] OTHER    -> cd = 1 /\ v.inv = k[2]
RECURSIVE Holds(_, _, _)
Holds(pv, m, v) ==
  CASE m[1] = 0 -> TRUE
    [] m[1] = 1 -> PredVal(pv, m[3], m[4], v)
    [] m[1] = 2 -> m[2] >= v.prec
    [] m[1] = 3 -> \A x \in m[2] : Holds(pv, x, v)
    [] m[1] = 4 -> \E x \in m[2] : Holds(pv, x, v)
\* the guard with its precedence conditions decided: <<ok, guard>>
EvalPrec(m, v) ==
  CASE m[1] = 2 -> <<m[2] >= v.prec, NoGuard>>
    [] m[1] = 3 -> LET bad == \E x \in m[2] : x[1] = 2 /\ x[2] < v.prec
                       rest == {x \in m[2] : x[1] /= 2}
                   IN <<~bad, IF rest = {} THEN NoGuard ELSE Wrap(3, rest)>>
    [] OTHER -> <<TRUE, m>>

(* --------------------------- configurations ----------------------------- *)
Bottom == {<<>>}
\* SLL: a stack known only down to some point stands for every longer one
Absorb(full, S) == IF full THEN S ELSE {x \in S : ~\E k \in 0..(Len(x) - 1) : SubSeq(x, 1, k) \in S}
\* configurations that differ only in their stacks are one
Merge(full, O) ==
  {LET Y == {x \in O : x[1] = k[1] /\ x[2] = k[2] /\ x[4] = k[3]} IN
     <<k[1], k[2], Absorb(full, UNION {x[3] : x \in Y}), k[3], \E x \in Y : x[5], \E x \in Y : x[6]>>
   : k \in {<<x[1], x[2], x[4]>> : x \in O}}

RuleOf(g, s) == St(g, s).r
PrecEntry(g, s) == St(g, s).t = SENTRY /\ Gs[g].prog[RuleOf(g, s) + 1].lr = 1 /\ Gs[g].prog[RuleOf(g, s) + 1].en = s
\* in the loop of a left-recursive rule, entering it again right after returning into it is redundant
CanDrop(g, s, c) ==
  /\ PrecEntry(g, s) /\ <<>> \notin c
  /\ LET tops == {x[1] : x \in c}
         bend == St(g, St(g, s).tr[1].to).end
         one(x) == Len(St(g, x).tr) = 1 /\ St(g, x).tr[1].k = "eps"
     IN  /\ \A x \in tops : RuleOf(g, x) = RuleOf(g, s)
         /\ \A x \in tops :
              /\ Len(St(g, x).tr) = 1 /\ ~IsTokTr(St(g, x).tr[1])
              /\ LET y == St(g, x).tr[1].to IN
                   \/ St(g, x).t = BEND /\ y = s
                   \/ x = bend \/ y = bend
                   \/ St(g, y).t = BEND /\ one(y) /\ St(g, y).tr[1].to = s

(* Closure.  Items are <<s, a, c, m, o, f, depth, collect>>; d is the decision state, v what  *)
(* predicates see.  Returns the configurations reached (not merged).                         *)
Neg(x) == IF x < 0 THEN -1 ELSE x
Cfg(it) == <<it[1], it[2], it[3], it[4], it[5], it[6]>>
StopEdges(g, it, d) ==
  LET r == RuleOf(g, it[1]) IN
  {<<k[2], it[2], it[3], it[4], TRUE,
     it[6] \/ (PrecEntry(g, d) /\ Gs[g].prog[r + 1].lr = 1 /\ k[3] = 0 /\ r = RuleOf(g, d)), Neg(it[7] - 1), it[8]>> : k \in CallsOf[g][r]}
Through(g, it, t, full, eof, pv, v, syms) ==
  LET to(c, m, dp, col) == {<<t.to, it[2], c, m, it[5], it[6], dp, col>>} IN
  CASE t.k = "eps" -> to(it[3], it[4], it[7], it[8])
    [] t.k = "act" -> to(it[3], it[4], it[7], FALSE)
    [] t.k = "rule" -> to({<<t.fol>> \o x : x \in it[3]}, it[4], IF it[7] >= 0 THEN it[7] + 1 ELSE -1, it[8])
    [] t.k = "pred" -> IF it[8] /\ (t.cd = 0 \/ it[7] = 0)
                       THEN IF full THEN IF PredVal(pv, t.i, t.cd, v) THEN to(it[3], it[4], it[7], it[8]) ELSE {}
                            ELSE to(it[3], And(it[4], <<1, t.r, t.i, t.cd>>), it[7], it[8])
                       ELSE to(it[3], it[4], it[7], it[8])
    [] t.k = "prec" -> IF it[8] /\ it[7] = 0
                       THEN IF full THEN IF t.p >= v.prec THEN to(it[3], it[4], it[7], it[8]) ELSE {}
                            ELSE to(it[3], And(it[4], <<2, t.p>>), it[7], it[8])
                       ELSE to(it[3], it[4], it[7], it[8])
    [] t.k = "set" -> IF eof /\ TEOF \in syms THEN to(it[3], it[4], it[7], it[8]) ELSE {}
    [] OTHER -> {}
Work(g, it, d, full, eof, pv, v) ==
  LET s == it[1]
      tr == St(g, s).tr IN
  IF St(g, s).t = RSTOP
  THEN IF CallsOf[g][RuleOf(g, s)] = {} THEN [add |-> {Cfg(it)}, nx |-> {}] ELSE [add |-> {}, nx |-> StopEdges(g, it, d)]
  ELSE [add |-> IF EpsOnly(g, s) THEN {} ELSE {Cfg(it)},
        nx |-> UNION {IF k = 1 /\ CanDrop(g, s, it[3]) THEN {} ELSE Through(g, it, tr[k], full, eof, pv, v, Syms[g][Ix(s)][k]) : k \in DOMAIN tr}]
Expand(g, it, d, full, eof, pv, v) ==
  IF St(g, it[1]).t = RSTOP
  THEN IF it[3] /= Bottom
       THEN [add |-> IF <<>> \in it[3] THEN {<<it[1], it[2], Bottom, it[4], it[5], it[6]>>} ELSE {},
             nx |-> {<<r, it[2], {Tail(x) : x \in {y \in it[3] : y /= <<>> /\ y[1] = r}}, it[4], it[5], it[6], Neg(it[7] - 1), it[8]>>
                     : r \in {x[1] : x \in it[3] \ Bottom}}]
       ELSE IF full THEN [add |-> {Cfg(it)}, nx |-> {}]
       ELSE Work(g, it, d, full, eof, pv, v)
  ELSE Work(g, it, d, full, eof, pv, v)
RECURSIVE Close(_, _, _, _, _, _, _, _, _)
Close(g, d, full, eof, pv, v, seen, todo, out) ==
  IF todo = {} THEN out
  ELSE LET E == {Expand(g, it, d, full, eof, pv, v) : it \in todo}
           nx == (UNION {e.nx : e \in E}) \ seen
       IN  Close(g, d, full, eof, pv, v, seen \union nx, nx, out \union UNION {e.add : e \in E})
Closure(g, d, full, eof, pv, v, items) == Close(g, d, full, eof, pv, v, items, items, {})

StartSet(g, d, full, stk, pv, v) ==
  Merge(full, Closure(g, d, full, FALSE, pv, v,
    {<<St(g, d).tr[k].to, k, {stk}, NoGuard, FALSE, FALSE, 0, TRUE>> : k \in DOMAIN St(g, d).tr}))
\* decisions of the loop of a left-recursive rule start with the operators the current precedence allows; an exit configuration
\* in the same place as an allowed operator is redundant
PrecFilter(C, v) ==
  LET A == {<<x, EvalPrec(x[4], v)>> : x \in {y \in C : y[2] = 1}}
      K == {p \in A : p[2][1]}
      keep1 == {IF p[2][2] = p[1][4] THEN p[1] ELSE <<p[1][1], 1, p[1][3], p[2][2], FALSE, FALSE>> : p \in K}
      keep2 == {x \in C : x[2] /= 1 /\ (x[6] \/ ~\E p \in K : p[1][1] = x[1] /\ p[1][3] = x[3])}
  IN Merge(FALSE, keep1 \union keep2)

Stops(g, C) == {x \in C : St(g, x[1]).t = RSTOP}
Alts(C) == {x[2] : x \in C}
Reach(g, d, C, t, full, pv, v) ==
  LET skipped == IF full \/ t = TEOF THEN Stops(g, C) ELSE {}
      moved == UNION {LET tr == St(g, x[1]).tr IN
                      {<<tr[k].to, x[2], x[3], x[4], x[5], x[6]>> : k \in {j \in DOMAIN tr : t \in Syms[g][Ix(x[1])][j]}} : x \in C \ Stops(g, C)}
      inter == Merge(full, moved)
      easy == skipped = {} /\ t /= TEOF /\ Cardinality(Alts(inter)) = 1
      reach == IF easy THEN inter
               ELSE Merge(full, Closure(g, d, full, t = TEOF, pv, v, {<<x[1], x[2], x[3], x[4], x[5], x[6], 0, FALSE>> : x \in inter}))
      r2 == IF t = TEOF THEN Stops(g, reach) ELSE reach
  IN  IF skipped /= {} /\ (~full \/ Stops(g, r2) = {}) THEN Merge(full, r2 \union skipped) ELSE r2

AltSets(C) == {{x[2] : x \in {y \in C : y[1] = k[1] /\ y[3] = k[2]}} : k \in {<<x[1], x[3]>> : x \in C}}
StateAlts(C) == {{x[2] : x \in {y \in C : y[1] = s}} : s \in {x[1] : x \in C}}
SllConflict(C, sll) ==
  LET D == IF sll /\ \E x \in C : x[4] /= NoGuard THEN Merge(TRUE, {<<x[1], x[2], x[3], NoGuard, FALSE, FALSE>> : x \in C}) ELSE C
  IN (\E A \in AltSets(D) : Cardinality(A) > 1) /\ ~\E A \in StateAlts(D) : Cardinality(A) = 1

RECURSIVE OrAll(_)
OrAll(S) == IF S = {} THEN <<9>> ELSE LET x == CHOOSE y \in S : TRUE IN IF S = {x} THEN x ELSE Or(x, OrAll(S \ {x}))
\* guards of the alternatives A: a function alternative -> guard; all NoGuard when there is none
GuardsOf(C, A) == [a \in A |-> LET S == {x[4] : x \in {y \in C : y[2] = a}} IN IF S = {} THEN NoGuard ELSE OrAll(S)]

MinOr0(S) == IF S = {} THEN 0 ELSE Min(S)
\* the alternative that got out of the decision's rule before the error, preferring those whose guard holds
Finished(g, C) == MinOr0({x[2] : x \in {y \in C : y[5] \/ (St(g, y[1]).t = RSTOP /\ <<>> \in y[3])}})
FallBack(g, C, pv, v) ==
  LET good == {x \in C : Holds(pv, x[4], v)}
      a == Finished(g, good)
  IN IF a /= 0 THEN a ELSE Finished(g, C \ good)

(* ------------------------------ prediction ------------------------------ *)
\* P = [g, d (state), dn (number), w (token types from the current position on), full stack, mode, pv, v]
\* token k of the remaining input, counted from 0; positions stay at end of file
LaAt(P, k) == IF k < Len(P.w) THEN P.w[k + 1] ELSE TEOF
Nxt(P, k) == IF k < Len(P.w) THEN k + 1 ELSE k
\* results: [alt (0 = none), at (offending lookahead offset), far (offset the last stage got to), ev (reports: kind, offset of the last token, ...)]
RECURSIVE Full(_, _, _, _), Sll(_, _, _)
Full(P, C, k, ev) ==
  LET R == Reach(P.g, P.d, C, LaAt(P, k), TRUE, P.pv, P.v)
      S == AltSets(R)
      mins == {Min(A) : A \in S}
      alts == Alts(R) IN
  IF R = {} THEN [alt |-> FallBack(P.g, C, P.pv, P.v), at |-> k, far |-> k, ev |-> ev]
  ELSE IF Cardinality(alts) = 1 THEN [alt |-> Min(alts), at |-> k, far |-> k, ev |-> Append(ev, <<"cs", k, Min(alts)>>)]
  ELSE IF P.mode /= 2 /\ Cardinality(mins) = 1 THEN [alt |-> Min(mins), at |-> k, far |-> k, ev |-> Append(ev, <<"am", k, 0, alts>>)]
  ELSE IF P.mode = 2 /\ Cardinality(S) = 1 /\ \A A \in S : Cardinality(A) > 1
       THEN [alt |-> Min(mins), at |-> k, far |-> k, ev |-> Append(ev, <<"am", k, 1, alts>>)]
  ELSE Full(P, R, Nxt(P, k), ev)

Sll(P, C, k) ==
  LET R == Reach(P.g, P.d, C, LaAt(P, k), FALSE, P.pv, P.v)
      alts == Alts(R)
      uniq == Cardinality(alts) = 1
      conf == ~uniq /\ (Stops(P.g, R) = R \/ SllConflict(R, P.mode = 1))
      G == GuardsOf(R, alts)
      guarded == \E a \in alts : G[a] /= NoGuard
      true == {a \in alts : Holds(P.pv, G[a], P.v)} IN
  IF R = {} THEN [alt |-> FallBack(P.g, C, P.pv, P.v), at |-> k, far |-> k, ev |-> <<>>]
  ELSE IF conf /\ P.mode /= 1
  THEN IF guarded /\ Cardinality(true) = 1 THEN [alt |-> Min(true), at |-> k, far |-> k, ev |-> <<>>]
       ELSE Full(P, StartSet(P.g, P.d, TRUE, P.stk, P.pv, P.v), 0, <<<<"fc", k, IF guarded THEN true ELSE alts>>>>)
  ELSE IF uniq \/ conf
  THEN IF ~guarded THEN [alt |-> Min(alts), at |-> k, far |-> k, ev |-> <<>>]
       ELSE IF true = {} THEN [alt |-> 0, at |-> 0, far |-> k, ev |-> <<>>]
       ELSE [alt |-> Min(true), at |-> k, far |-> k, ev |-> IF Cardinality(true) = 1 THEN <<>> ELSE <<<<"am", k, 0, true>>>>]
  ELSE Sll(P, R, Nxt(P, k))

\* the furthest offset looked at: both stages count
Furthest(R) == Max({R.far} \union {R.ev[k][2] : k \in DOMAIN R.ev})
Predict(P) ==
  LET S0 == StartSet(P.g, P.d, FALSE, <<>>, P.pv, P.v)
      S1 == IF PrecEntry(P.g, P.d) THEN PrecFilter(S0, P.v) ELSE S0
  IN Sll(P, S1, 0)
=============================================================================
