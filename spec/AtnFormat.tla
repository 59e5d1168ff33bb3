----------------------------- MODULE AtnFormat ------------------------------
(***************************************************************************)
(* The serialized automaton format (version 3) as a decoder: from the code *)
(* points of the serialized string to the automaton, for each of the four  *)
(* revisions, or refusal.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC


RSTART == 2  BLK == 3  PBLK == 4  SBLK == 5  RSTOP == 7  SENTRY == 10  LEND == 12
IsBlock(t) == t \in {BLK, PBLK, SBLK}
IsDecision(t) == t \in {BLK, PBLK, SBLK, 6, SENTRY, 11}
MAXCHAR == 1114111

\* 16-bit word k of the data (1 is the first after the version); values are stored plus two, surrogates moved up by 0x3000
Word(c, k) == LET ch == c[k + 1] IN ((IF ch > 65535 THEN ch - 12288 ELSE ch) - 2) % 65536
Signed(v) == IF v = 65535 THEN -1 ELSE v

\* revision 1..4 of the identifier in the first eight words, or 0
Revision(c, uuids) == LET u == [k \in 1..8 |-> Word(c, k)] IN IF u \in ToSet(uuids) THEN CHOOSE r \in DOMAIN uuids : uuids[r] = u ELSE 0

W(c, k) == IF k + 1 <= Len(c) THEN Word(c, k) ELSE 0

\* a record list: count at position k, then items read by Item(position) = [v, k]
RECURSIVE Items(_, _, _, _)
Items(Item(_), k, n, acc) == IF n = 0 THEN [v |-> acc, k |-> k] ELSE LET r == Item(k) IN Items(Item, r.k, n - 1, Append(acc, r.v))
List(c, k, Item(_)) == IF k + 1 > Len(c) THEN [v |-> <<>>, k |-> k + 1] ELSE Items(Item, k + 1, W(c, k), <<>>)

Raw(c, rev) ==
  LET lexer == W(c, 9) = 0
      w(k) == W(c, k)
      one(k) == [v |-> w(k), k |-> k + 1]
      state(k) == IF w(k) = 0 THEN [v |-> [t |-> 0, r |-> -1, x |-> -1], k |-> k + 1]
                  ELSE IF IsBlock(w(k)) \/ w(k) = LEND THEN [v |-> [t |-> w(k), r |-> Signed(w(k + 1)), x |-> w(k + 2)], k |-> k + 3]
                  ELSE [v |-> [t |-> w(k), r |-> Signed(w(k + 1)), x |-> -1], k |-> k + 2]
      rule(k) == IF ~lexer THEN [v |-> <<w(k), 0>>, k |-> k + 1]
                 ELSE [v |-> <<w(k), Signed(w(k + 1))>>, k |-> IF rev < 3 THEN k + 3 ELSE k + 2]
      iv16(k) == [v |-> <<w(k), w(k + 1)>>, k |-> k + 2]
      iv32(k) == [v |-> <<w(k) + 65536 * w(k + 1), w(k + 2) + 65536 * w(k + 3)>>, k |-> k + 4]
      set(iv(_), k) == LET r == Items(iv, k + 2, w(k), <<>>) IN [v |-> (IF w(k + 1) # 0 THEN <<<<-1, -1>>>> ELSE <<>>) \o r.v, k |-> r.k]
      set16(k) == set(iv16, k)
      set32(k) == set(iv32, k)
      edge(k) == [v |-> [i \in 1..6 |-> w(k + i - 1)], k |-> k + 6]
      action(k) == [v |-> <<w(k), Signed(w(k + 1)), Signed(w(k + 2))>>, k |-> k + 3]
      none(k) == [v |-> <<>>, k |-> k]
      states == List(c, 11, state)
      ng == List(c, states.k, one)
      pr == IF rev >= 2 THEN List(c, ng.k, one) ELSE none(ng.k)
      rules == List(c, pr.k, rule)
      modes == List(c, rules.k, one)
      s16 == List(c, modes.k, set16)
      s32 == IF rev >= 4 THEN List(c, s16.k, set32) ELSE none(s16.k)
      edges == List(c, s32.k, edge)
      decs == List(c, edges.k, one)
      acts == IF lexer /\ rev >= 3 THEN List(c, decs.k, action) ELSE none(decs.k)
  IN  [kind |-> w(9), max |-> w(10), states |-> states.v, ng |-> ToSet(ng.v), pr |-> ToSet(pr.v), rules |-> rules.v, modes |-> modes.v,
       sets |-> s16.v \o s32.v, edges |-> edges.v, decs |-> decs.v, acts |-> acts.v, end |-> acts.k]

\* what must be refused, rather than decoded to something
Refused(c, uuids) ==
  IF Len(c) = 0 \/ c[1] # 3 \/ Len(c) < 11 THEN TRUE
  ELSE LET rev == Revision(c, uuids) IN
       IF rev = 0 \/ W(c, 9) \notin {0, 1} THEN TRUE
       ELSE LET r == Raw(c, rev) IN
            \/ r.end > Len(c)
            \/ \E i \in DOMAIN r.states : r.states[i].t > 12
            \/ \E i \in DOMAIN r.edges : r.edges[i][3] \notin 1..10
            \/ \E i \in DOMAIN r.acts : r.acts[i][1] > 7

InSet(s, v) == \E i \in DOMAIN s : s[i][1] <= v /\ v <= s[i][2]
Sel(probes, P(_)) == SelectSeq(probes, P)

\* the transition an edge stands for: <<kind, target, arguments, probes it matches, probes in its label, epsilon?>>
Trans(r, rev, e, actno, probes) ==
  LET a == e[4]  b == e[5]  d == e[6]  k == e[3]
      atom == IF d # 0 THEN <<<<-1, -1>>>> ELSE <<<<a, a>>>>
      range == <<<<IF d # 0 THEN -1 ELSE a, b>>>>
      sy(s) == LET m == Sel(probes, LAMBDA v : InSet(s, v)) IN <<"set", e[2], <<>>, m, m, 0>>
  IN CASE k = 1 -> <<"eps", e[2], <<-1>>, <<>>, <<>>, 1>>
       [] k = 2 -> sy(range)
       [] k = 3 -> <<"rule", a, <<e[2], b, d>>, <<>>, <<>>, 1>>
       [] k = 4 -> <<"pred", e[2], <<a, b, IF d # 0 THEN 1 ELSE 0>>, <<>>, <<>>, 1>>
       [] k = 5 -> sy(atom)
       [] k = 6 -> <<"act", e[2], <<a, IF r.kind = 0 /\ rev < 3 THEN actno ELSE Signed(b), IF d # 0 THEN 1 ELSE 0>>, <<>>, <<>>, 1>>
       [] k = 7 -> sy(r.sets[a + 1])
       [] k = 8 -> <<"nset", e[2], <<>>, Sel(probes, LAMBDA v : 0 <= v /\ v <= MAXCHAR /\ ~InSet(r.sets[a + 1], v)), <<>>, 0>>
       [] k = 9 -> <<"any", e[2], <<>>, Sel(probes, LAMBDA v : 0 <= v /\ v <= MAXCHAR), <<>>, 0>>
       [] k = 10 -> <<"prec", e[2], <<a>>, <<>>, <<>>, 1>>

AddTr(trs, t) == IF t[6] = 1 /\ \E i \in DOMAIN trs : trs[i][6] = 1 /\ trs[i][2] = t[2] THEN trs ELSE Append(trs, t)

Decode(c, uuids, probes) ==
  LET rev == Revision(c, uuids)
      r == Raw(c, rev)
      n == Len(r.states)
      nr == Len(r.rules)
      \* number of action edges up to each edge, for the revisions without an action table
      actno(i) == Cardinality({j \in 1..i - 1 : r.edges[j][3] = 6})
      direct == FoldLeft(LAMBDA f, i : [f EXCEPT ![r.edges[i][1] + 1] = AddTr(@, Trans(r, rev, r.edges[i], actno(i), probes))],
                         [s \in 1..n |-> <<>>], [i \in 1..Len(r.edges) |-> i])
      rulesOf == [q \in 1..nr |-> r.rules[q][1]]
      leftrec(q) == rulesOf[q + 1] \in r.pr /\ r.states[rulesOf[q + 1] + 1].t = RSTART
      stops == {s \in 1..n : r.states[s].t = RSTOP}
      stopOf == [q \in 1..nr |-> LET z == {s \in stops : r.states[s].r = q - 1} IN IF z = {} THEN 0 ELSE (CHOOSE s \in z : \A y \in z : y <= s) - 1]
      \* return edges, derived from every rule reference in order
      calls == FlattenSeq([s \in 1..n |-> SelectSeq(direct[s], LAMBDA t : t[1] = "rule")])
      ret(f, t) == LET q == r.states[t[2] + 1].r IN
                   [f EXCEPT ![stopOf[q + 1] + 1] = AddTr(@, <<"eps", t[3][1], <<IF leftrec(q) /\ t[3][3] = 0 THEN q ELSE -1>>, <<>>, <<>>, 1>>)]
      full == FoldLeft(ret, direct, calls)
      epsOnly(s) == IF full[s] # <<>> /\ \A i \in DOMAIN full[s] : full[s][i][6] = 1 THEN 1 ELSE 0
      decOf(s) == LET z == {i \in DOMAIN r.decs : r.decs[i] = s - 1} IN IF z = {} \/ ~IsDecision(r.states[s].t) THEN -1 ELSE (CHOOSE i \in z : \A j \in z : j <= i) - 1
      \* the loop of a left recursive rule: its exit leads straight out of the rule
      prec(s) == LET x == r.states[s] IN
                 IF x.t # SENTRY \/ ~leftrec(x.r) THEN 0
                 ELSE LET le == full[s][Len(full[s])][2] + 1 IN
                      IF r.states[le].t = LEND /\ epsOnly(le) = 1 /\ r.states[full[le][1][2] + 1].t = RSTOP THEN 1 ELSE 0
      view(s) == LET x == r.states[s] IN
                 <<x.t, x.r, IF IsBlock(x.t) THEN x.x ELSE -1, IF x.t = LEND THEN x.x ELSE -1, IF IsDecision(x.t) /\ (s - 1) \in r.ng THEN 1 ELSE 0, decOf(s),
                   IF x.t = RSTART /\ (s - 1) \in r.pr THEN 1 ELSE 0, IF x.t = RSTART THEN stopOf[x.r + 1] ELSE -1, prec(s), s - 1, epsOnly(s), full[s]>>
  IN  [kind |-> IF r.kind = 0 THEN "LEXER" ELSE "PARSER", max |-> r.max, st |-> [s \in 1..n |-> view(s)], rstart |-> rulesOf, rstop |-> stopOf,
       tok |-> IF r.kind = 0 THEN [q \in 1..nr |-> r.rules[q][2]] ELSE <<>>, modes |-> r.modes, dec |-> r.decs, decst |-> r.decs]
=============================================================================
