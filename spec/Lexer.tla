------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexer as a state machine, without any DFA cache.                    *)
(*                                                                         *)
(* A grammar g is a record describing its ATN (see bin/atn.py); state s of *)
(* the ATN is g.st[s+1].  The input w is a sequence of code points and off *)
(* maps a character position 0..Len(w) to the offset the character stream  *)
(* reports for it.                                                         *)
(*                                                                         *)
(* A configuration is [s, alt, stk, ng, acts]: ATN state, index of the     *)
(* rule in its mode, stack of return states (head first), "passed through  *)
(* a non-greedy decision", and the actions met so far as <<index, offset>> *)
(* (offset = -1: not yet fixed, so relative to the end of the match).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

EOFSYM == -1
RSTOP == 7
MAXCHAR == 1114111

St(g, s) == g.st[s + 1]

InIv(set, x) == \E i \in DOMAIN set : set[i][1] <= x /\ x <= set[i][2]

\* does transition t consume symbol x (a code point or EOFSYM)?
Consumes(t, x) ==
  CASE t.k = "set"  -> InIv(t.set, x)
    [] t.k = "nset" -> x >= 0 /\ x <= MAXCHAR /\ ~InIv(t.set, x)
    [] t.k = "any"  -> x >= 0 /\ x <= MAXCHAR
    [] OTHER        -> FALSE

IsEps(t) == t.k \in {"eps", "rule", "pred", "act"}
OnlyEps(g, s) == \A i \in DOMAIN St(g, s).tr : IsEps(St(g, s).tr[i])

\* semantic predicates the harness installs; env = what user code can see when it is evaluated
Pred(i, env) ==
  CASE i = 0 -> TRUE
    [] i = 1 -> FALSE
    [] i = 2 -> env.col % 2 = 0
    [] i = 3 -> env.flag
    [] i = 4 -> ~env.flag
    [] i = 5 -> env.line = 1
    [] i = 6 -> env.ms = <<>>
    [] OTHER -> TRUE

NgAt(g, c, s) == c.ng \/ St(g, s).ng = 1

\* One epsilon step of configuration c over t: a sequence with zero or one configuration
EpsTarget(g, c, t, env, eofeps) ==
  CASE t.k = "eps"  -> <<[c EXCEPT !.s = t.to, !.ng = NgAt(g, c, t.to)]>>
    [] t.k = "rule" -> <<[c EXCEPT !.s = t.to, !.ng = NgAt(g, c, t.to), !.stk = <<t.fol>> \o c.stk]>>
    [] t.k = "pred" -> IF Pred(t.i, env) THEN <<[c EXCEPT !.s = t.to, !.ng = NgAt(g, c, t.to)]>> ELSE <<>>
    [] t.k = "act"  -> IF c.stk = <<>>   \* actions inside a referenced rule are not collected
                       THEN <<[c EXCEPT !.s = t.to, !.ng = NgAt(g, c, t.to), !.acts = Append(c.acts, <<t.i, -1>>)]>>
                       ELSE <<[c EXCEPT !.s = t.to, !.ng = NgAt(g, c, t.to)]>>
    [] t.k = "set"  -> IF eofeps /\ InIv(t.set, EOFSYM)
                       THEN <<[c EXCEPT !.s = t.to, !.ng = NgAt(g, c, t.to)]>> ELSE <<>>
    [] OTHER -> <<>>

\* acc = [cf: ordered configurations, car: this alternative already reached an accept state]
RECURSIVE Closure(_, _, _, _, _)
Closure(g, c, acc, env, eofeps) ==
  LET st == St(g, c.s) IN
  IF st.t = RSTOP
  THEN IF c.stk = <<>>
       THEN [cf |-> IF Contains(acc.cf, c) THEN acc.cf ELSE Append(acc.cf, c), car |-> TRUE]
       ELSE Closure(g, [c EXCEPT !.s = Head(c.stk), !.ng = NgAt(g, c, Head(c.stk)), !.stk = Tail(c.stk)], acc, env, eofeps)
  ELSE LET a0 == IF ~OnlyEps(g, c.s) /\ ~(acc.car /\ c.ng) /\ ~Contains(acc.cf, c)
                 THEN [acc EXCEPT !.cf = Append(acc.cf, c)] ELSE acc
           F(a, t) == LET e == EpsTarget(g, c, t, env, eofeps)
                      IN  IF e = <<>> THEN a ELSE Closure(g, e[1], a, env, eofeps)
       IN  FoldLeft(F, a0, st.tr)

StartConfigs(g, mode, env) ==
  LET ms == St(g, g.modes[mode + 1]).tr
      F(cf, i) == Closure(g, [s |-> ms[i].to, alt |-> i, stk |-> <<>>, ng |-> FALSE, acts |-> <<>>],
                          [cf |-> cf, car |-> FALSE], env, FALSE).cf
  IN  FoldLeft(F, <<>>, [i \in 1..Len(ms) |-> i])

\* fix the offset of the actions met so far, just before consuming a symbol at distance d from the match start
IsCustom(g, a) == g.acts[a + 1][1] = 1
Fix(g, acts, d) == [i \in DOMAIN acts |-> IF acts[i][2] = -1 /\ IsCustom(g, acts[i][1]) THEN <<acts[i][1], d>> ELSE acts[i]]

\* configurations reachable over symbol x; a = [cf, skip]
ReachOf(g, cfs, x, d, env) ==
  LET F(a, c) ==
        LET car == c.alt = a.skip IN
        IF car /\ c.ng THEN a
        ELSE LET tr == St(g, c.s).tr
                 c1(t) == [c EXCEPT !.s = t.to, !.ng = NgAt(g, c, t.to), !.acts = Fix(g, c.acts, d)]
                 H(b, t) == IF b.done \/ ~Consumes(t, x) THEN b
                            ELSE LET r == Closure(g, c1(t), [cf |-> b.cf, car |-> car], env, x = EOFSYM)
                                 IN  [cf |-> r.cf, done |-> r.car, hit |-> r.car]
                 z == FoldLeft(H, [cf |-> a.cf, done |-> FALSE, hit |-> FALSE], tr)
             IN  [cf |-> z.cf, skip |-> IF z.hit THEN c.alt ELSE a.skip]
  IN  FoldLeft(F, [cf |-> <<>>, skip |-> 0], cfs).cf

AcceptOf(g, cfs) == LET i == SelectInSeq(cfs, LAMBDA c : St(g, c.s).t = RSTOP) IN IF i = 0 THEN <<>> ELSE <<cfs[i]>>

NextLC(w, p, lc) == IF w[p + 1] = 10 THEN [line |-> lc.line + 1, col |-> 0] ELSE [line |-> lc.line, col |-> lc.col + 1]

\* best = <<>> or <<[end, lc, c]>>; p0 = start of the match
RECURSIVE Sim(_, _, _, _, _, _, _, _)
Sim(g, x, cfs, p0, p, lc, user, best) ==
  LET w == x.w
      a == AcceptOf(g, cfs)
      b == IF a = <<>> THEN best ELSE <<[end |-> p, lc |-> lc, c |-> a[1]]>>
      eof == p = Len(w)
      sym == IF eof THEN EOFSYM ELSE w[p + 1]
      lc1 == IF eof THEN lc ELSE NextLC(w, p, lc)
      r == ReachOf(g, cfs, sym, x.off[p + 1] - x.off[p0 + 1], [line |-> lc1.line, col |-> lc1.col, flag |-> user.flag, ms |-> user.ms])
  IN  IF r = <<>> THEN [best |-> b, p |-> p, lc |-> lc]
      ELSE IF eof
           THEN LET ra == AcceptOf(g, r) IN
                IF ra # <<>> THEN [best |-> <<[end |-> p, lc |-> lc, c |-> ra[1]]>>, p |-> p, lc |-> lc]
                ELSE Sim(g, x, r, p0, p, lc, user, b)
           ELSE Sim(g, x, r, p0, p + 1, lc1, user, b)

MatchAt(g, x, mode, p, lc, user) ==
  LET env == [line |-> lc.line, col |-> lc.col, flag |-> user.flag, ms |-> user.ms]
      c0 == StartConfigs(g, mode, env)
  IN  Sim(g, x, c0, p, p, lc, user, <<>>)

-----------------------------------------------------------------------------
(* The token loop.  q is the lexer's whole state:                          *)
(*   pos, lc       position, line and column                               *)
(*   mode, ms      current mode and mode stack (top last)                  *)
(*   flag          user state the harness' actions and predicates share    *)
(*   hit           end of input has been seen                              *)
(*   cont          inside a token continued by "more"                      *)
(*   ts, tlc       start of the current token; its line and column         *)
(*   chan, typ     channel and type set by actions                         *)
(*   txt           <<>> or <<override text>>;   tok: <<>> or <<override>>   *)
(* Each action returns the next state and the events it makes visible.     *)
MORE == -2
SKIP == -3

Q0 == [pos |-> 0, lc |-> [line |-> 1, col |-> 0], mode |-> 0, ms |-> <<>>, flag |-> FALSE, hit |-> FALSE,
       cont |-> FALSE, ts |-> 0, tlc |-> [line |-> 1, col |-> 0], chan |-> 0, typ |-> 0, txt |-> <<>>, tok |-> <<>>]

EOFTEXT == <<60, 69, 79, 70, 62>>     \* "<EOF>"
Slice(x, a, b) == SubSeq(x.w, a + 1, b)

TokEvent(x, q, type, chan, start, stop, lc, text) ==
  <<"tok", type, chan, start, stop, lc.line, lc.col, IF type = EOFSYM THEN EOFTEXT ELSE text,
    q.mode, q.ms, q.lc.line, q.lc.col, x.off[q.pos + 1]>>

\* at most one EOF token per call, with an empty span at the end of input
EmitEof(x, q) == [q |-> q, ev |-> <<TokEvent(x, q, EOFSYM, 0, x.off[q.pos + 1], x.off[q.pos + 1] - 1, q.lc, EOFTEXT)>>]

PushMode(q, m) == [q EXCEPT !.ms = Append(q.ms, q.mode), !.mode = m]
PopMode(q) == IF q.ms = <<>> THEN q ELSE [q EXCEPT !.mode = q.ms[Len(q.ms)], !.ms = SubSeq(q.ms, 1, Len(q.ms) - 1)]

CurText(x, q, p) == IF q.txt # <<>> THEN q.txt[1] ELSE Slice(x, q.ts, p)

\* user code run by custom action number k, called with the input at character position p
Custom(x, q, k, p) ==
  CASE k = 1  -> [q EXCEPT !.flag = ~q.flag]
    [] k = 2  -> [q EXCEPT !.typ = 50]
    [] k = 3  -> [q EXCEPT !.typ = SKIP]
    [] k = 4  -> [q EXCEPT !.typ = MORE]
    [] k = 5  -> PushMode(q, 1)
    [] k = 6  -> PopMode(q)
    [] k = 7  -> [q EXCEPT !.chan = 7]
    [] k = 8  -> [q EXCEPT !.txt = <<<<88>>>>]
    [] k = 9  -> [q EXCEPT !.mode = 0]
    [] k = 10 -> [q EXCEPT !.tok = <<[type |-> 60, start |-> x.off[q.ts + 1], stop |-> x.off[p + 1] - 1, text |-> <<89>>]>>]
    [] k = 11 -> [q EXCEPT !.txt = <<<<>>>>]
    [] k = 12 -> [q EXCEPT !.txt = <<CurText(x, q, p) \o CurText(x, q, p)>>]
    [] OTHER -> q

\* character position whose offset is o
PosOf(x, o) == SelectInSeq(x.off, LAMBDA v : v = o) - 1

RunAct(g, x, p0, end, z, a) ==
  LET act == g.acts[a[1] + 1]
      p == IF a[2] = -1 THEN end ELSE PosOf(x, x.off[p0 + 1] + a[2])
      q == z.q
  IN CASE act[1] = 0 -> [z EXCEPT !.q.chan = act[2]]
       [] act[1] = 1 -> [q |-> Custom(x, q, act[3], p),
                         ev |-> Append(z.ev, <<"act", act[2], act[3], x.off[p + 1], CurText(x, q, p)>>)]
       [] act[1] = 2 -> [z EXCEPT !.q.mode = act[2]]
       [] act[1] = 3 -> [z EXCEPT !.q.typ = MORE]
       [] act[1] = 4 -> [z EXCEPT !.q = PopMode(q)]
       [] act[1] = 5 -> [z EXCEPT !.q = PushMode(q, act[2])]
       [] act[1] = 6 -> [z EXCEPT !.q.typ = SKIP]
       [] act[1] = 7 -> [z EXCEPT !.q.typ = act[2]]

\* create the token for the text since q.ts (or hand out the one an action supplied)
Emit(x, q) ==
  LET start == x.off[q.ts + 1]
      stop == x.off[q.pos + 1] - 1
      size == x.off[Len(x.off)]
      text == IF q.txt # <<>> THEN q.txt[1]
              ELSE IF stop >= size \/ start >= size THEN EOFTEXT ELSE Slice(x, q.ts, q.pos)
  IN  IF q.tok # <<>>
      THEN <<TokEvent(x, q, q.tok[1].type, 0, q.tok[1].start, q.tok[1].stop, q.tlc, q.tok[1].text)>>
      ELSE <<<<"emit", x.off[q.pos + 1], q.typ>>, TokEvent(x, q, q.typ, q.chan, start, stop, q.tlc, text)>>

\* one match attempt and everything that follows from it
MatchStep(g, x, q0) ==
  LET q == IF q0.cont THEN [q0 EXCEPT !.typ = 0]
           ELSE [q0 EXCEPT !.ts = q0.pos, !.tlc = q0.lc, !.chan = 0, !.txt = <<>>, !.tok = <<>>, !.typ = 0]
      m == MatchAt(g, x, q.mode, q.pos, q.lc, [flag |-> q.flag, ms |-> q.ms])
      n == Len(x.w)
  IN  IF m.best # <<>>
      THEN LET b == m.best[1]
               ttype == g.tok[St(g, b.c.s).r + 1]
               q1 == [q EXCEPT !.pos = b.end, !.lc = b.lc]
               z == FoldLeft(LAMBDA y, a : RunAct(g, x, q.pos, b.end, y, a), [q |-> q1, ev |-> <<>>], b.c.acts)
               q2 == [z.q EXCEPT !.hit = q.hit \/ b.end = n, !.typ = IF z.q.typ = 0 THEN ttype ELSE z.q.typ]
           IN  IF q2.typ = SKIP THEN [q |-> [q2 EXCEPT !.cont = FALSE], ev |-> z.ev]
               ELSE IF q2.typ = MORE THEN [q |-> [q2 EXCEPT !.cont = TRUE], ev |-> z.ev]
               ELSE [q |-> [q2 EXCEPT !.cont = FALSE], ev |-> z.ev \o Emit(x, q2)]
      ELSE IF m.p = n /\ m.p = q.pos
      THEN LET q2 == [q EXCEPT !.hit = TRUE, !.typ = EOFSYM, !.cont = FALSE]
           IN  [q |-> q2, ev |-> Emit(x, q2)]
      ELSE \* no rule matches: report the text read so far including the offending character, drop it, go on
           LET e == <<"err", q.tlc.line, q.tlc.col, Slice(x, q.ts, IF m.p < n THEN m.p + 1 ELSE n)>>
               p1 == IF m.p < n THEN m.p + 1 ELSE n
               lc1 == IF m.p < n THEN NextLC(x.w, m.p, m.lc) ELSE m.lc
           IN  [q |-> [q EXCEPT !.pos = p1, !.lc = lc1, !.hit = q.hit \/ p1 = n, !.cont = FALSE], ev |-> <<e>>]

Step(g, x, q) == IF q.hit /\ ~q.cont THEN EmitEof(x, q) ELSE MatchStep(g, x, q)
=============================================================================
