-------------------------------- MODULE Gram --------------------------------
(* Parser grammars as the specification sees them.  A grammar is a record    *)
(*   st    automaton states (numbered from 0): kind, rule, transitions        *)
(*   code  the statements of the grammar, a flat list (sequence, alternatives,*)
(*         loops, tokens, rule references ...), index from 1                  *)
(*   prog  per rule: its body; for left-recursive rules the primary part and  *)
(*         the operator alternatives with their precedence                    *)
(* This module defines what the grammar *means*: the language of every        *)
(* statement (Ends), and the tokens that can come next (Nt, Expected).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt

Gs == JsonDeserialize(IOEnv.GRAMS)

BASIC == 1  RSTART == 2  BLK == 3  PBLK == 4  SBLK == 5  TSTART == 6
RSTOP == 7  BEND == 8  SBACK == 9  SENTRY == 10  PBACK == 11  LEND == 12
TEOF == -1
EPS == -2

Ix(s) == s + 1
St(g, s) == Gs[g].st[Ix(s)]
SNums(g) == 0..(Len(Gs[g].st) - 1)
Toks(g) == {TEOF} \union 1..Gs[g].maxtok
InIv(x, iv) == \E k \in DOMAIN iv : iv[k][1] <= x /\ x <= iv[k][2]

SymsOf(g, t) ==
  IF t.k = "set" THEN {x \in Toks(g) : InIv(x, t.set)}
  ELSE IF t.k = "nset" THEN {x \in 1..Gs[g].maxtok : ~InIv(x, t.set)}
  ELSE IF t.k = "any" THEN 1..Gs[g].maxtok
  ELSE {}
\* the tokens every transition matches (evaluated once)
Syms == [g \in DOMAIN Gs |-> [i \in DOMAIN Gs[g].st |-> [k \in DOMAIN Gs[g].st[i].tr |-> SymsOf(g, Gs[g].st[i].tr[k])]]]
IsTokTr(t) == t.k \in {"set", "nset", "any"}
EpsOnly(g, s) == LET tr == St(g, s).tr IN tr /= <<>> /\ \A k \in DOMAIN tr : ~IsTokTr(tr[k])

\* calls of a rule: <<state, follow state, precedence>>
CallsOf == [g \in DOMAIN Gs |-> [r \in 0..(Len(Gs[g].rstart) - 1) |->
  {<<s, St(g, s).tr[1].fol, St(g, s).tr[1].p>> : s \in {x \in SNums(g) : \E k \in DOMAIN St(g, x).tr : St(g, x).tr[k].k = "rule" /\ St(g, x).tr[k].r = r}}]]
FollowOf(g, inv) == St(g, inv).tr[1].fol

-----------------------------------------------------------------------------
(* Tokens that can come next from an automaton state without leaving its     *)
(* rule; EPS when the rule can end.  Least fixpoint.                          *)
RECURSIVE NtFix(_, _)
NtStep(g, F) ==
  [i \in DOMAIN Gs[g].st |->
     IF Gs[g].st[i].t = RSTOP THEN {EPS}
     ELSE UNION {LET t == Gs[g].st[i].tr[k] IN
                 IF IsTokTr(t) THEN Syms[g][i][k]
                 ELSE IF t.k = "rule" THEN (F[Ix(t.to)] \ {EPS}) \union (IF EPS \in F[Ix(t.to)] THEN F[Ix(t.fol)] ELSE {})
                 ELSE F[Ix(t.to)] : k \in DOMAIN Gs[g].st[i].tr}]
NtFix(g, F) == LET N == NtStep(g, F) IN IF N = F THEN F ELSE NtFix(g, N)
NtAll == [g \in DOMAIN Gs |-> NtFix(g, [i \in DOMAIN Gs[g].st |-> {}])]
Nt(g, s) == NtAll[g][Ix(s)]

\* expected tokens in state s with the follow states stk of the open invocations, innermost first
RECURSIVE Expected(_, _, _)
Expected(g, s, stk) ==
  LET n == Nt(g, s) IN
  IF EPS \notin n THEN n
  ELSE (n \ {EPS}) \union (IF stk = <<>> THEN {TEOF} ELSE Expected(g, Head(stk), Tail(stk)))

-----------------------------------------------------------------------------
(* The language of the grammar.  w is the sequence of token types, without   *)
(* the end of file; position i means i tokens are consumed, and Len(w) + 1    *)
(* that end of file was matched.  T is the table of what rules can derive:    *)
(* <<rule, precedence, i>> -> set of positions.                               *)
TokAt(w, i) == IF i < Len(w) THEN w[i + 1] ELSE TEOF
\* matching end of file once leaves the marker position; it can be matched again from there
Adv(w, i) == IF i < Len(w) THEN i + 1 ELSE Len(w) + 1

RECURSIVE Ends(_, _, _, _, _, _), EndsAll(_, _, _, _, _, _), Kleene(_, _, _, _, _, _, _), EndsSeq(_, _, _, _, _, _, _)
\* positions reachable from position i by statement n in a rule invoked with precedence p
Ends(g, w, T, n, p, i) ==
  LET c == Gs[g].code[n]
      x == TokAt(w, i) IN
  CASE c.k = "tok" -> IF x = c.t THEN {Adv(w, i)} ELSE {}
    [] c.k = "set" -> IF InIv(x, c.iv) THEN {Adv(w, i)} ELSE {}
    [] c.k = "nset" -> IF x > 0 /\ ~InIv(x, c.iv) THEN {Adv(w, i)} ELSE {}
    [] c.k = "any" -> IF x > 0 THEN {Adv(w, i)} ELSE {}
    [] c.k = "rule" -> T[<<c.r, c.p, i>>]
    [] c.k \in {"pred", "act"} -> {i}
    [] c.k = "prec" -> IF c.p >= p THEN {i} ELSE {}
    [] c.k = "seq" -> EndsSeq(g, w, T, c.ks, 1, p, {i})
    [] c.k = "alt" -> UNION {Ends(g, w, T, c.ks[k], p, i) : k \in DOMAIN c.ks} \union (IF c.o = 1 THEN {i} ELSE {})
    [] c.k = "star" -> Kleene(g, w, T, c.b, p, {i}, {i})
    [] c.k = "plus" -> LET f == Ends(g, w, T, c.b, p, i) IN Kleene(g, w, T, c.b, p, f, f)
EndsAll(g, w, T, n, p, I) == UNION {Ends(g, w, T, n, p, i) : i \in I}
EndsSeq(g, w, T, ks, k, p, I) == IF k > Len(ks) \/ I = {} THEN I ELSE EndsSeq(g, w, T, ks, k + 1, p, EndsAll(g, w, T, ks[k], p, I))
Kleene(g, w, T, n, p, done, todo) ==
  IF todo = {} THEN done
  ELSE LET new == EndsAll(g, w, T, n, p, todo) \ done IN Kleene(g, w, T, n, p, done \union new, new)

\* a left-recursive rule: a primary part, then any number of operator applications its precedence allows
RuleEnds(g, w, T, r, p, i) ==
  LET pr == Gs[g].prog[r + 1] IN
  IF pr.lr = 1
  THEN LET ops == pr.ks
           RECURSIVE Loop(_, _)
           Loop(done, todo) == IF todo = {} THEN done
                               ELSE LET new == (UNION {EndsAll(g, w, T, ops[k], p, todo) : k \in DOMAIN ops}) \ done
                                    IN Loop(done \union new, new)
           f == Ends(g, w, T, pr.n, p, i)
       IN Loop(f, f)
  ELSE Ends(g, w, T, pr.n, p, i)

\* the invocations that occur in the grammar: <<rule, precedence>>
Invs == [g \in DOMAIN Gs |-> {<<r, 0>> : r \in 0..(Len(Gs[g].prog) - 1)} \union
           UNION {LET c == Gs[g].code[n] IN IF c.k = "rule" THEN {<<c.r, c.p>>} ELSE {} : n \in DOMAIN Gs[g].code}]
RECURSIVE TabFix(_, _, _)
TabFix(g, w, T) ==
  LET N == [k \in DOMAIN T |-> T[k] \union RuleEnds(g, w, T, k[1], k[2], k[3])]
  IN  IF N = T THEN T ELSE TabFix(g, w, N)
\* what every rule can derive from every position of w
Table(g, w) == TabFix(g, w, [k \in {<<x[1], x[2], i>> : x \in Invs[g], i \in 0..(Len(w) + 1)} |-> {}])
\* w is in the language of rule r
Derives(g, w, T, r) == Len(w) + 1 \in T[<<r, 0, 0>>]
=============================================================================
