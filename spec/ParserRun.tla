------------------------------ MODULE ParserRun ------------------------------
(* The parser as a state machine: recursive descent over the statements of    *)
(* the grammar, one statement per step, with rule contexts, the parse tree,   *)
(* listeners, the precedence stack, and the error strategies.                 *)
(*                                                                            *)
(* K is the control stack (what remains to be done), M everything else.       *)
(* How a decision is taken is a parameter of the step (Oracle):               *)
(*   "sim"  as AllStar.tla prescribes - with or without errors                *)
(*   "min"  the lowest-numbered alternative from which the rest of the input  *)
(*          can be completed (Gram!Ends), for inputs of the language          *)
(*   "amb"  the same, and every decision that more than one alternative        *)
(*          completes is reported (exact mode, no left recursion)              *)
EXTENDS AllStar

CONSTANT Oracle
Cases == ndJsonDeserialize(IOEnv.CASES)

\* the tokens the parser sees, end of file last
TkOf(c) ==
  LET all == [i \in 1..Len(c.toks) |-> [ty |-> c.toks[i][1], ch |-> c.toks[i][2], ix |-> i - 1, tx |-> c.toks[i][3], dx |-> c.toks[i][4]]]
      vis == IF c.stream = 1 THEN all ELSE SelectSeq(all, LAMBDA t : t.ch = 0)
  IN  Append(vis, [ty |-> TEOF, ch |-> 0, ix |-> Len(c.toks), tx |-> "<EOF>", dx |-> "<EOF>"])
TkAll == [i \in DOMAIN Cases |-> TkOf(Cases[i])]
Ws == [i \in DOMAIN Cases |-> [k \in 1..(Len(TkAll[i]) - 1) |-> TkAll[i][k].ty]]

NoErr == [k |-> "none"]
NoSet == <<>>
M0(c) == [q |-> 1, st |-> -1, ctx |-> 0, ns |-> <<>>, ps |-> <<0>>, rec |-> FALSE, lei |-> -1, les |-> {}, nst |-> -1, nstk |-> <<>>, mi |-> -1, ms |-> {},
          meof |-> FALSE, cnt |-> 0, lis |-> [i \in 1..c.lis |-> i - 1], nl |-> c.lis, ev |-> <<>>, er |-> NoErr, alt |-> 0, root |-> 0]

Emit(M, e) == [M EXCEPT !.ev = Append(@, e)]
Sorted(S) == SetToSortSeq(S, <)
Cur(i, M) == TkAll[i][M.q]
La(i, M, k) == LET t == TkAll[i] IN t[IF M.q + k - 1 <= Len(t) THEN M.q + k - 1 ELSE Len(t)].ty
Prev(M) == IF M.q > 1 THEN M.q - 1 ELSE 0            \* 0: there is none
Prec(M) == IF M.ps = <<>> THEN -1 ELSE M.ps[Len(M.ps)]

(* ----------------------------- rule contexts ---------------------------- *)
\* follow states of the open invocations of context x, innermost first
RECURSIVE Chain(_, _, _)
Chain(g, M, x) == IF x = 0 \/ M.ns[x].inv < 0 THEN <<>> ELSE <<FollowOf(g, M.ns[x].inv)>> \o Chain(g, M, M.ns[x].pa)
Stk(g, M) == Chain(g, M, M.ctx)
ExpNow(g, M) == Expected(g, M.st, Stk(g, M))
RecSet(g, M) == LET s == Stk(g, M) IN (UNION {Nt(g, s[k]) : k \in DOMAIN s}) \ {EPS}

NewNode(M, r, pa, inv) == [M EXCEPT !.ns = Append(@, [r |-> r, pa |-> pa, inv |-> inv, a |-> 0, b |-> 0, ch |-> <<>>, al |-> 0])]
AddChild(c, M, x, kid) == IF c.tree = 1 /\ x /= 0 THEN [M EXCEPT !.ns[x].ch = Append(@, kid)] ELSE M

RECURSIVE EmitAll(_, _, _, _)
EmitAll(M, tag, ls, v) == IF ls = <<>> THEN M ELSE EmitAll(Emit(M, <<tag, Head(ls), v>>), tag, Tail(ls), v)
EnterEv(M) == EmitAll(M, "en", M.lis, M.ns[M.ctx].r)
ExitEv(M) == EmitAll(M, "ex", Reverse(M.lis), M.ns[M.ctx].r)

(* --------------------------- errors and recovery ------------------------ *)
Name(g, t) == IF t = TEOF THEN "<EOF>" ELSE Gs[g].names[t + 1]
RECURSIVE JoinNames(_, _)
JoinNames(g, s) == IF Len(s) = 1 THEN Name(g, s[1]) ELSE Name(g, s[1]) \o ", " \o JoinNames(g, Tail(s))
ExpStr(g, S) == IF S = {} THEN "{}" ELSE IF Cardinality(S) = 1 THEN JoinNames(g, Sorted(S)) ELSE "{" \o JoinNames(g, Sorted(S)) \o "}"
Q(x) == "'" \o x \o "'"
RECURSIVE TextOf(_, _, _)
\* (as messages show it, white space escaped)
TextOf(c, a, b) == IF a > b \/ a >= Len(c.toks) THEN "" ELSE c.toks[a + 1][4] \o TextOf(c, a + 1, b)

ErrEv(M, kind, tok, exp, msg) == Emit(M, <<"e", kind, tok.ix, 1, tok.ix, exp, msg>>)
EndCond(M) == [M EXCEPT !.rec = FALSE, !.lei = -1, !.les = {}, !.nst = -1, !.nstk = <<>>]
ReportMatch(c, M) == IF c.bail = 1 THEN M ELSE EndCond(M)

Consume(i, M) ==
  LET c == Cases[i]
      t == Cur(i, M)
      M1 == IF t.ty = TEOF THEN M ELSE [M EXCEPT !.q = @ + 1]
  IN  IF M.rec THEN EmitAll(AddChild(c, M1, M.ctx, <<2, M.q>>), "er", M.lis, t.ix)
      ELSE EmitAll(AddChild(c, M1, M.ctx, <<1, M.q>>), "te", M.lis, t.ix)
RECURSIVE ConsumeUntil(_, _, _)
ConsumeUntil(i, M, S) == IF Cur(i, M).ty = TEOF \/ Cur(i, M).ty \in S THEN M ELSE ConsumeUntil(i, Consume(i, M), S)

Unwanted(i, M) ==
  LET g == Cases[i].g + 1
      E == ExpNow(g, M) IN
  IF M.rec THEN M
  ELSE ErrEv([M EXCEPT !.rec = TRUE], "unwanted", Cur(i, M), Sorted(E), "extraneous input " \o Q(Cur(i, M).dx) \o " expecting " \o ExpStr(g, E))
\* the states in which a token was made up at this place
Tried(i, M) == IF M.mi = Cur(i, M).ix THEN M.ms ELSE {}
Missing(i, M0_) ==
  LET g == Cases[i].g + 1
      M == [M0_ EXCEPT !.mi = Cur(i, M0_).ix, !.ms = Tried(i, M0_) \union {M0_.st}]
      E == ExpNow(g, M) IN
  IF M.rec THEN M
  ELSE ErrEv([M EXCEPT !.rec = TRUE], "missing", Cur(i, M), Sorted(E), "missing " \o ExpStr(g, E) \o " at " \o Q(Cur(i, M).dx))
CanDelete(i, M) == La(i, M, 2) \in ExpNow(Cases[i].g + 1, M)
Delete(i, M) == ReportMatch(Cases[i], Consume(i, Unwanted(i, M)))
\* (the same token is not made up twice at the same place)
CanInsert(i, M) == LET g == Cases[i].g + 1 IN Cur(i, M).ty \in Expected(g, St(g, M.st).tr[1].to, Stk(g, M)) /\ M.st \notin Tried(i, M)

MismatchHere(g, M) == [k |-> "mismatch", off |-> M.q, exp |-> ExpNow(g, M)]
\* a token that cannot be matched here: delete it, or pretend the missing one was there, or give up.
\* The result has the matched token in field got: a position, or <<type>> for one that was made up.
RecoverInline(i, M) ==
  LET c == Cases[i]
      g == c.g + 1
      r(m, got) == [m |-> m, got |-> got] IN
  IF c.bail = 1 THEN r([M EXCEPT !.er = [k |-> "fall"]], <<>>)
  ELSE IF CanDelete(i, M) THEN LET D == Delete(i, M) IN r(Consume(i, D), <<D.q>>)
  ELSE IF CanInsert(i, M) THEN r(Missing(i, M), <<0, MinOr0(ExpNow(g, M))>>)
  ELSE r([M EXCEPT !.er = IF M.nst < 0 THEN MismatchHere(g, M)
                          ELSE [k |-> "mismatch", off |-> M.q, exp |-> Expected(g, M.nst, M.nstk)]], <<>>)

Sync(i, M) ==
  LET c == Cases[i]
      g == c.g + 1
      n == Nt(g, M.st) IN
  IF c.bail = 1 \/ M.rec THEN M
  ELSE IF Cur(i, M).ty \in n THEN [M EXCEPT !.nst = -1, !.nstk = <<>>]
  ELSE IF EPS \in n THEN IF M.nst < 0 THEN [M EXCEPT !.nst = M.st, !.nstk = Stk(g, M)] ELSE M
  ELSE IF St(g, M.st).t \in {BLK, PBLK, SBLK, SENTRY}
       THEN IF CanDelete(i, M) THEN Delete(i, M) ELSE [M EXCEPT !.er = MismatchHere(g, M)]
  ELSE LET U == Unwanted(i, M) IN ConsumeUntil(i, U, ExpNow(g, U) \union RecSet(g, U))

Report(i, M) ==
  LET c == Cases[i]
      g == c.g + 1
      e == M.er
      N == [M EXCEPT !.rec = TRUE] IN
  IF M.rec THEN M
  ELSE CASE e.k = "mismatch" -> ErrEv(N, "mismatch", TkAll[i][e.off], Sorted(e.exp),
                                      "mismatched input " \o Q(TkAll[i][e.off].dx) \o " expecting " \o ExpStr(g, e.exp))
         [] e.k = "noalt" -> ErrEv(N, "noalt", TkAll[i][e.off], <<TkAll[i][e.start].ix>>, "no viable alternative at input " \o
                                   Q(IF TkAll[i][e.start].ty = TEOF THEN "<EOF>" ELSE TextOf(c, TkAll[i][e.start].ix, TkAll[i][e.off].ix)))
         [] e.k = "pred" -> ErrEv(N, "pred", TkAll[i][e.off], <<>>, "rule " \o Gs[g].rules[M.ns[M.ctx].r + 1] \o " failed predicate: " \o e.what)
Recover(i, M) ==
  LET g == Cases[i].g + 1
      M1 == IF M.lei = Cur(i, M).ix /\ M.st \in M.les THEN Consume(i, M) ELSE M
      M2 == [M1 EXCEPT !.lei = Cur(i, M1).ix, !.les = @ \union {M1.st}]
  IN  ConsumeUntil(i, M2, RecSet(g, M2))

(* ------------------------------- decisions ------------------------------ *)
PEnv(i, M) == [la |-> Cur(i, M).ty, cnt |-> M.cnt, start |-> TkAll[i][M.ns[M.ctx].a].ix, inv |-> M.ns[M.ctx].inv, prec |-> Prec(M)]
Rest(i, M) == SubSeq(Ws[i], M.q, Len(Ws[i]))
SimOf(i, M, s) ==
  LET c == Cases[i]
      g == c.g + 1
  IN Predict([g |-> g, d |-> s, w |-> Rest(i, M), stk |-> Stk(g, M), mode |-> c.mode, pv |-> c.pv, v |-> PEnv(i, M)])
RepEv(dn, q, i, r) ==
  LET ix(k) == TkAll[i][q + k].ix IN
  CASE r[1] = "fc" -> <<"fc", dn, ix(0), ix(r[2]), Sorted(r[3])>>
    [] r[1] = "cs" -> <<"cs", dn, ix(0), ix(r[2]), r[3]>>
    [] r[1] = "am" -> <<"am", dn, ix(0), ix(r[2]), r[3], Sorted(r[4])>>
RECURSIVE Reports(_, _, _, _)
Reports(M, i, dn, rs) == IF rs = <<>> THEN M ELSE Reports(Emit(M, RepEv(dn, M.q, i, Head(rs))), i, dn, Tail(rs))
\* decision number dn in decision state d, entered in parser state s
SimDecide(i, M, d, dn) ==
  LET R == SimOf(i, M, d)
      M1 == Emit(Emit(Reports(M, i, dn, R.ev), <<"far", TkAll[i][M.q + Furthest(R)].ix>>), <<"p", dn, R.alt, 1>>)
  IN  IF R.alt = 0 THEN [M1 EXCEPT !.er = [k |-> "noalt", start |-> M.q, off |-> M.q + R.at]] ELSE [M1 EXCEPT !.alt = R.alt]

(* What can be completed from control stack K: the positions reachable when   *)
(* everything in K is done.                                                    *)
RECURSIVE EndsK(_, _, _, _, _, _)
EndsK(g, w, T, K, ps, I) ==
  IF K = <<>> \/ I = {} THEN I
  ELSE LET h == Head(K)
           p == ps[Len(ps)]
           ops(J) == LET RECURSIVE Loop(_, _)
                         Loop(done, todo) == IF todo = {} THEN done
                                             ELSE LET new == (UNION {EndsAll(g, w, T, Gs[g].prog[h[2] + 1].ks[k], p, todo) : k \in DOMAIN Gs[g].prog[h[2] + 1].ks}) \ done
                                                  IN Loop(done \union new, new)
                     IN Loop(J, J)
           nx == CASE h[1] = "c" -> EndsAll(g, w, T, h[2], p, I)
                   [] h[1] \in {"la", "pb"} -> Kleene(g, w, T, Gs[g].code[h[2]].b, p, I, I)
                   [] h[1] \in {"top", "lrp"} -> EndsAll(g, w, T, Gs[g].prog[h[2] + 1].n, p, I)
                   [] h[1] \in {"lrs", "lrl"} -> ops(I)
                   [] h[1] = "lrb" -> ops(UNION {EndsAll(g, w, T, Gs[g].prog[h[2] + 1].ks[k], p, I) : k \in DOMAIN Gs[g].prog[h[2] + 1].ks})
                   [] h[1] = "end" -> I
       IN EndsK(g, w, T, Tail(K), IF h[1] = "end" /\ h[3] = 1 THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps, nx)
Pos(i, M) == IF M.meof THEN Len(Ws[i]) + 1 ELSE M.q - 1
\* alternatives of a decision that can be completed; cont[a] = control stack after choosing a
Viable(i, M, T, cont) == {a \in DOMAIN cont : Len(Ws[i]) + 1 \in EndsK(Cases[i].g + 1, Ws[i], T, cont[a], M.ps, {Pos(i, M)})}
MinDecide(i, M, T, dn, cont) ==
  LET V == Viable(i, M, T, cont)
      a == MinOr0(V)
      \* by the grammar alone a decision is ambiguous when more than one alternative completes the input
      M1 == IF Oracle = "amb" /\ Cardinality(V) > 1 THEN Emit(M, <<"am", dn, Cur(i, M).ix, 1, Sorted(V)>>) ELSE M
  IN [Emit(M1, <<"p", dn, a, 1>>) EXCEPT !.alt = a, !.er = IF a = 0 THEN [k |-> "stuck"] ELSE NoErr]

(* ---------------------------------- steps ------------------------------- *)
Res(K, M) == [K |-> K, M |-> M]
Cs(ks) == [k \in DOMAIN ks |-> <<"c", ks[k]>>]
\* control stacks after each alternative of a decision
AltConts(cd, K) ==
  LET n == Len(cd.ks) IN
  IF cd.o = 0 THEN [a \in 1..n |-> <<<<"c", cd.ks[a]>>>> \o K]
  ELSE IF cd.g = 1 THEN [a \in 1..(n + 1) |-> IF a = n + 1 THEN K ELSE <<<<"c", cd.ks[a]>>>> \o K]
  ELSE [a \in 1..(n + 1) |-> IF a = 1 THEN K ELSE <<<<"c", cd.ks[a - 1]>>>> \o K]
LoopConts(cd, again, K) == LET bodyK == <<<<"c", cd.b>>, again>> \o K IN IF cd.g = 1 THEN <<bodyK, K>> ELSE <<K, bodyK>>

\* the names of the open rules, innermost first
RECURSIVE OpenRules(_, _, _)
OpenRules(g, M, x) == IF x = 0 THEN <<>> ELSE <<Gs[g].rules[M.ns[x].r + 1]>> \o OpenRules(g, M, M.ns[x].pa)
Invoked(i, M) == IF Cases[i].ri = 1 THEN Emit(M, <<"ri", OpenRules(Cases[i].g + 1, M, M.ctx)>>) ELSE M
Expect(i, M) == IF Cases[i].x = 1 THEN Emit(M, <<"x", Sorted(ExpNow(Cases[i].g + 1, M))>>) ELSE M
\* sync in parser state s, then decide in decision state d
Decide(i, M, T, s, d, dn, cont) ==
  LET M0_ == Sync(i, [M EXCEPT !.st = s])
      M1 == IF M0_.er = NoErr THEN Expect(i, M0_) ELSE M0_ IN
  IF M1.er /= NoErr THEN M1
  ELSE IF Oracle \in {"min", "amb"} THEN MinDecide(i, M1, T, dn, cont) ELSE SimDecide(i, M1, d, dn)
Go(M, cont) == IF M.er /= NoErr THEN Res(<<>>, M) ELSE Res(cont[M.alt], M)

\* match one token, given whether the current one fits
MatchTok(i, M, K, fits, addmissing) ==
  LET c == Cases[i]
      t == Cur(i, M) IN
  IF fits
  THEN LET M1 == Consume(i, ReportMatch(c, IF t.ty = TEOF THEN [M EXCEPT !.meof = TRUE] ELSE M)) IN Res(K, Emit(M1, <<"m", t.ix, t.ty>>))
  ELSE LET R == RecoverInline(i, M) IN
       IF R.m.er /= NoErr THEN Res(K, R.m)
       ELSE IF Len(R.got) = 1 THEN Res(K, Emit(R.m, <<"m", TkAll[i][R.got[1]].ix, TkAll[i][R.got[1]].ty>>))
       ELSE LET M1 == IF addmissing THEN AddChild(c, R.m, R.m.ctx, <<3, R.got[2]>>) ELSE R.m IN Res(K, Emit(M1, <<"m", -1, R.got[2]>>))

SetAlt(c, M, a) == \* entering a labelled alternative replaces the context by one of the alternative's own type
  IF c.lab = 0 THEN EnterEv(M)
  ELSE LET old == M.ns[M.ctx]
           id == Len(M.ns) + 1
           M1 == [M EXCEPT !.ns = Append(@, [old EXCEPT !.al = a]), !.ctx = id]
           M2 == IF c.tree = 1 /\ old.pa /= 0 THEN [M1 EXCEPT !.ns[old.pa].ch = Append(SubSeq(@, 1, Len(@) - 1), <<0, id>>)] ELSE M1
       IN EnterEv(M2)
CopyCtx(M) == LET id == Len(M.ns) + 1 IN [M EXCEPT !.ns = Append(@, [M.ns[M.ctx] EXCEPT !.al = 0]), !.ctx = id]

Invoke(i, M, r, p, K) ==
  LET c == Cases[i]
      g == c.g + 1
      pr == Gs[g].prog[r + 1]
      id == Len(M.ns) + 1
      pa == M.ctx
      ps == M.st
      M1 == NewNode(M, r, pa, ps)
      M2 == [M1 EXCEPT !.st = Gs[g].rstart[r + 1], !.ns[id].a = M.q, !.ctx = id] IN
  IF pr.lr = 0
  THEN LET M3 == AddChild(c, M2, pa, <<0, id>>)
           fr == <<<<"end", r, 0, pa>>>> \o K
       IN IF pr.top = 1 THEN Res(<<<<"top", r>>>> \o fr, M3)
          ELSE Res(<<<<"c", pr.n>>>> \o fr, SetAlt(c, M3, 1))
  ELSE LET M3 == EnterEv([M2 EXCEPT !.ps = Append(@, p)])
           fr == <<<<"lrs", r, pa, ps>>, <<"end", r, 1, pa>>>> \o K
           n == Gs[g].code[pr.n]
       IN IF c.lab = 0 THEN Res(<<<<"c", pr.n>>>> \o fr, M3)
          ELSE IF n.k = "alt" THEN Res(<<<<"lrp", r>>>> \o fr, M3)
          ELSE Res(<<<<"c", pr.n>>>> \o fr, CopyCtx(M3))

ListenerOps(i, M) ==
  LET ops == SelectSeq(Cases[i].lops, LAMBDA o : o[1] = M.cnt)
      RECURSIVE All(_, _)
      All(m, os) == IF os = <<>> THEN m
                    ELSE LET o == Head(os)[2] IN
                         All(IF o < 0 THEN [m EXCEPT !.lis = Append(@, m.nl), !.nl = @ + 1]
                             ELSE IF \E k \in DOMAIN m.lis : m.lis[k] = o THEN Emit([m EXCEPT !.lis = SelectSeq(@, LAMBDA x : x /= o)], <<"rm", o, o>>)
                             ELSE m, Tail(os))
  IN All(M, ops)

Stmt(i, M, T, n, K) ==
  LET c == Cases[i]
      g == c.g + 1
      cd == Gs[g].code[n]
      At(s) == [M EXCEPT !.st = s]
      x == Cur(i, M).ty IN
  CASE cd.k = "tok" -> MatchTok(i, Invoked(i, Expect(i, At(cd.s))), K, x = cd.t, TRUE)
    [] cd.k = "any" -> MatchTok(i, Expect(i, At(cd.s)), K, x > 0, TRUE)
    [] cd.k = "set" -> MatchTok(i, Expect(i, At(cd.s)), K, InIv(x, cd.iv), FALSE)
    [] cd.k = "nset" -> MatchTok(i, Expect(i, At(cd.s)), K, x > 0 /\ ~InIv(x, cd.iv), FALSE)
    [] cd.k = "rule" -> Invoke(i, At(cd.s), cd.r, cd.p, K)
    [] cd.k = "pred" -> LET M1 == At(cd.s) IN
         IF PredVal(c.pv, cd.i, cd.cd, PEnv(i, M1)) THEN Res(K, M1)
         ELSE Res(K, [M1 EXCEPT !.er = [k |-> "pred", off |-> M.q, what |-> "P" \o ToString(cd.i)]])
    [] cd.k = "prec" -> LET M1 == At(cd.s) IN
         IF cd.p >= Prec(M) THEN Res(K, M1)
         ELSE Res(K, [M1 EXCEPT !.er = [k |-> "pred", off |-> M.q, what |-> "recog.precpred(None, " \o ToString(cd.p) \o ")"]])
    [] cd.k = "act" -> LET M1 == ListenerOps(i, [M EXCEPT !.cnt = @ + 1]) IN Res(K, Emit(M1, <<"a", cd.i, Cur(i, M).ix>>))
    [] cd.k = "seq" -> Res(Cs(cd.ks) \o K, M)
    [] cd.k = "alt" -> LET ct == AltConts(cd, K) IN Go(Decide(i, M, T, cd.s, cd.s, cd.d, ct), ct)
    [] cd.k = "star" -> LET ct == LoopConts(cd, <<"la", n>>, K) IN Go(Decide(i, M, T, cd.s, cd.s, cd.d, ct), ct)
    [] cd.k = "plus" -> Res(<<<<"c", cd.b>>, <<"pb", n>>>> \o K, Sync(i, At(cd.s)))

Leave(i, M, h) ==
  LET stop == IF M.meof THEN M.q ELSE Prev(M)
      x == M.ctx IN
  IF h[3] = 0
  THEN LET M1 == ExitEv([M EXCEPT !.ns[x].b = stop]) IN [M1 EXCEPT !.st = M.ns[x].inv, !.ctx = M.ns[x].pa, !.root = x]
  ELSE LET M1 == ExitEv([M EXCEPT !.ns[x].b = Prev(M), !.ps = SubSeq(@, 1, Len(@) - 1)])
           M2 == [M1 EXCEPT !.ctx = h[4], !.ns[x].pa = h[4], !.root = x]
       IN AddChild(Cases[i], M2, h[4], <<0, x>>)

Item(i, M, T, h, K) ==
  LET c == Cases[i]
      g == c.g + 1 IN
  CASE h[1] = "c" -> Stmt(i, M, T, h[2], K)
    [] h[1] = "top" -> LET cd == Gs[g].code[Gs[g].prog[h[2] + 1].n]
                           ct == AltConts(cd, K)
                           M1 == Decide(i, M, T, cd.s, cd.s, cd.d, ct)
                       IN IF M1.er /= NoErr THEN Res(K, M1) ELSE Res(ct[M1.alt], SetAlt(c, M1, M1.alt))
    [] h[1] = "lrp" -> LET cd == Gs[g].code[Gs[g].prog[h[2] + 1].n]
                           ct == AltConts(cd, K)
                           M1 == Decide(i, M, T, cd.s, cd.s, cd.d, ct)
                       IN IF M1.er /= NoErr THEN Res(K, M1) ELSE Res(ct[M1.alt], CopyCtx(M1))
    [] h[1] = "la" -> LET cd == Gs[g].code[h[2]]
                          ct == LoopConts(cd, <<"la", h[2]>>, K) IN Go(Decide(i, M, T, cd.lb, cd.s, cd.d, ct), ct)
    [] h[1] = "pb" -> LET cd == Gs[g].code[h[2]]
                          ct == LoopConts(cd, <<"pb", h[2]>>, K) IN Go(Decide(i, M, T, cd.lb, cd.lb, cd.d, ct), ct)
    [] h[1] \in {"lrs", "lrl"} ->
         LET pr == Gs[g].prog[h[2] + 1]
             M1 == IF h[1] = "lrs" THEN [M EXCEPT !.ns[M.ctx].b = Prev(M)] ELSE M
             ct == <<<<<<"lrb", h[2], h[3], h[4]>>>> \o K, K>>
             M2 == Decide(i, M1, T, IF h[1] = "lrs" THEN pr.en ELSE pr.lb, pr.en, pr.d, ct)
         IN IF M2.er /= NoErr THEN Res(K, M2) ELSE Res(ct[M2.alt], IF M2.alt = 1 THEN ExitEv(M2) ELSE M2)
    [] h[1] = "lrb" ->
         LET pr == Gs[g].prog[h[2] + 1]
             ct == [a \in DOMAIN pr.ks |-> <<<<"c", pr.ks[a]>>, <<"lrl", h[2], h[3], h[4]>>>> \o K]
             M1 == IF pr.sb >= 0 THEN Decide(i, M, T, pr.sb, pr.sb, pr.sd, ct) ELSE [M EXCEPT !.alt = 1]
             id == Len(M1.ns) + 1
             x == M1.ctx
             M2 == NewNode(M1, h[2], h[3], h[4])
             M3 == [M2 EXCEPT !.ns[x].pa = id, !.ns[x].inv = Gs[g].rstart[h[2] + 1], !.ns[x].b = Prev(M1), !.ns[id].a = M1.ns[x].a, !.ctx = id]
         IN IF M1.er /= NoErr THEN Res(K, M1) ELSE Res(ct[M1.alt], EnterEv(AddChild(c, M3, id, <<0, x>>)))
    [] h[1] = "end" -> Res(K, Leave(i, M, h))

RECURSIVE ToFrame(_)
ToFrame(K) == IF K = <<>> \/ Head(K)[1] = "end" THEN K ELSE ToFrame(Tail(K))
\* an error ends the innermost open rule: reported, recovered from, and the rule is left
Unwind(i, K, M) ==
  LET F == ToFrame(K) IN
  IF M.er.k = "fall" THEN Res(<<>>, M)
  ELSE LET M1 == Report(i, M) IN
       IF Cases[i].bail = 1 THEN Res(<<>>, [M1 EXCEPT !.er = [k |-> "fall"]])
       ELSE Res(Tail(F), Leave(i, [Recover(i, M1) EXCEPT !.er = NoErr], Head(F)))

\* one step; the events of the step are in M.ev
Step(i, K, M, T) ==
  LET R == Item(i, [M EXCEPT !.ev = <<>>], T, Head(K), Tail(K)) IN
  IF R.M.er = NoErr THEN R ELSE IF R.M.er.k = "stuck" THEN Res(<<>>, R.M) ELSE Unwind(i, Tail(K), R.M)

Begin(i) == LET R == Invoke(i, M0(Cases[i]), Cases[i].start, 0, <<>>) IN R
EndEv(i, M) == <<"end", IF M.er.k = "fall" THEN "bail" ELSE "ok", Cur(i, M).ix, IF M.ctx = 0 THEN 1 ELSE 0, Prec(M)>>

(* ------------------------------ finished tree --------------------------- *)
TokIx(i, p) == IF p = 0 THEN -1 ELSE TkAll[i][p].ix
RECURSIVE TreeOf(_, _, _), TextAll(_)
TextAll(ts) == IF ts = <<>> THEN "" ELSE (IF Head(ts)[1] = 0 THEN Head(ts)[9] ELSE Head(ts)[6]) \o TextAll(Tail(ts))
TreeOf(i, M, kid) ==
  IF kid[1] \in {1, 2} THEN LET t == TkAll[i][kid[2]] IN <<kid[1], t.ix, t.ty, t.ix, t.ix, t.tx>>
  ELSE IF kid[1] = 3 THEN <<2, -1, kid[2], -1, -1, IF kid[2] = TEOF THEN "<EOF>" ELSE "<missing " \o Name(Cases[i].g + 1, kid[2]) \o ">">>  \* (a token of type end of file always reads <EOF>)
  ELSE LET x == M.ns[kid[2]]
           ch == [k \in DOMAIN x.ch |-> TreeOf(i, M, x.ch[k])]
       IN <<0, x.r, x.al, TokIx(i, x.a), TokIx(i, x.b), x.inv, TokIx(i, x.a), TokIx(i, x.b), TextAll(ch), ch>>
=============================================================================
