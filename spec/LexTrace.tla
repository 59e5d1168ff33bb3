------------------------------ MODULE LexTrace ------------------------------
(* Trace validation: every recorded session of the real lexer must be a     *)
(* behaviour of Lexer.tla; every event must be the one the spec produces.   *)
EXTENDS Lexer, Json, IOUtils

Gs == JsonDeserialize(IOEnv.GRAMMARS)
Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, q, l, ok

vars == <<ci, q, l, ok>>

Init == ci \in 1..Len(Cases) /\ q = Q0 /\ l = 1 /\ ok = TRUE

More == ok /\ l <= Len(Cases[ci].ev)

Do(z) ==
  LET tr == Cases[ci].ev
      n == Len(z.ev)
  IN  /\ q' = z.q
      /\ l' = l + n
      /\ ok' = (l + n - 1 <= Len(tr) /\ \A i \in 1..n : tr[l + i - 1] = z.ev[i])
      /\ ci' = ci

Eof == More /\ q.hit /\ ~q.cont /\ Do(EmitEof(Cases[ci], q))
Match == More /\ ~(q.hit /\ ~q.cont) /\ Do(MatchStep(Gs[Cases[ci].g + 1], Cases[ci], q))

Next == Eof \/ Match
Spec == Init /\ [][Next]_vars

\* the recorded session agrees with the specification so far
Conforms == ok

(* Properties of the specification itself, evaluated in every reachable state *)
\* positions stay inside the input and a token never starts after the current position
Tiling == q.pos <= Len(Cases[ci].w) /\ q.ts <= q.pos /\ (q.pos = Len(Cases[ci].w) => q.hit \/ Len(Cases[ci].w) = 0)
LineCol == \* line and column are a function of the consumed prefix
  LET w == Cases[ci].w
      nl == {i \in 1..q.pos : w[i] = 10}
      last == IF nl = {} THEN 0 ELSE CHOOSE i \in nl : \A j \in nl : j <= i
  IN  q.lc.line = 1 + Cardinality(nl) /\ q.lc.col = q.pos - last

(* Declarative meaning of "longest match, earliest rule", independent of the *)
(* ordered simulation: the set of positions at which a rule can end.         *)
RECURSIVE Reach(_, _, _, _)
Reach(g, w, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET c == CHOOSE x \in todo : TRUE     \* c = <<state, stack, position>>
           st == St(g, c[1])
           sym == IF c[3] = Len(w) THEN EOFSYM ELSE w[c[3] + 1]
           nx == IF st.t = RSTOP
                 THEN IF c[2] = <<>> THEN {} ELSE {<<Head(c[2]), Tail(c[2]), c[3]>>}
                 ELSE UNION {LET t == st.tr[i] IN
                             IF t.k = "rule" THEN {<<t.to, <<t.fol>> \o c[2], c[3]>>}
                             ELSE IF IsEps(t) THEN {<<t.to, c[2], c[3]>>}
                             ELSE IF Consumes(t, sym) THEN {<<t.to, c[2], IF sym = EOFSYM THEN c[3] ELSE c[3] + 1>>} ELSE {}
                             : i \in DOMAIN st.tr}
           new == nx \ seen
       IN  Reach(g, w, seen \union new, (todo \ {c}) \union new)
Ends(g, w, s, p) == {c[3] : c \in {x \in Reach(g, w, {<<s, <<>>, p>>}, {<<s, <<>>, p>>}) : x[2] = <<>> /\ St(g, x[1]).t = RSTOP}}

\* what a match at position p must choose: <<end, rule>>, or <<>> if no rule matches
Choice(g, w, mode, p) ==
  LET ms == St(g, g.modes[mode + 1]).tr
      E == [i \in DOMAIN ms |-> Ends(g, w, ms[i].to, p)]
      all == UNION {E[i] : i \in DOMAIN ms}
      m == CHOOSE x \in all : \A y \in all : y <= x
      i == CHOOSE j \in DOMAIN ms : m \in E[j] /\ \A k \in DOMAIN ms : m \in E[k] => j <= k
  IN  IF all = {} THEN <<>> ELSE <<m, St(g, ms[i].to).r>>

\* the ordered simulation picks exactly the longest match of the earliest rule (short inputs, no non-greedy loops or predicates)
LongestMatch ==
  LET x == Cases[ci]
      g == Gs[x.g + 1]
      m == MatchAt(g, x, q.mode, q.pos, q.lc, [flag |-> q.flag, ms |-> q.ms])
  IN  (x.cls = 1 /\ Len(x.w) <= 6) =>
      (IF m.best = <<>> THEN <<>> ELSE <<m.best[1].end, St(g, m.best[1].c.s).r>>) = Choice(g, x.w, q.mode, q.pos)

\* termination: every step makes progress, or hands out a token, or ends the input
Progress == [][q'.pos > q.pos \/ l' > l \/ (~q.hit /\ q'.hit)]_vars
=============================================================================
