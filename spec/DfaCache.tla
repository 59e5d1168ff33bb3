------------------------------ MODULE DfaCache ------------------------------
(* Threads that share decision caches.  A decision is decided by running a    *)
(* deterministic automaton over the input; what is known of that automaton is *)
(* kept in a cache that grows while it is used.  The automaton itself is      *)
(* given by StartOf and Delta, functions of contents; the cache numbers the   *)
(* contents it has met.  Every prediction holds the upgradable lock of its    *)
(* decision from the first lookup to the end; insertions upgrade it.  A       *)
(* parser prediction that needs a token not fetched yet runs the lexer, which *)
(* does the same on the cache of its mode, inside the parser's prediction.    *)
(* Other threads may look at a cache under the shared lock (to print it).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Jobs, Protocol
None == "none"
\* decision 1: a decision of the parser with two precedence levels; decision 2: a mode of the lexer
Decs == {1, 2}
Keys(d) == IF d = 1 THEN {0, 1} ELSE {0}
Syms == {1, 2}
Err == 0
StartOf(d, k) == IF d = 1 THEN (IF k = 0 THEN 1 ELSE 2) ELSE 1
\* contents are numbered too, but those numbers are names of configuration sets, not places in the cache
Delta(d, c, x) ==
  IF d = 1 THEN CASE c = 1 /\ x = 1 -> 3 [] c = 1 /\ x = 2 -> 2 [] c = 2 /\ x = 1 -> 3 [] c = 2 /\ x = 2 -> Err [] c = 3 /\ x = 1 -> 1 [] OTHER -> Err
  ELSE CASE c = 1 /\ x = 1 -> 2 [] c = 1 /\ x = 2 -> 3 [] c = 2 /\ x = 1 -> 2 [] c = 3 /\ x = 2 -> 1 [] OTHER -> Err
RECURSIVE Path(_, _, _)
Path(d, c, w) == IF w = <<>> THEN c ELSE LET n == Delta(d, c, Head(w)) IN IF n = Err THEN Err ELSE Path(d, n, Tail(w))
\* what a prediction gives when it is alone
Alone(j) == Path(j.d, StartOf(j.d, j.k), j.w)

VARIABLES
  cache,   \* decision -> [s0: key -> number or 0, st: sequence of [c: content, e: symbol -> number, -1 for none to be, 0 for unknown]]
  lock,    \* decision -> [up: the thread holding the upgradable lock, ex: is it upgraded, rd: threads with the shared lock]
  todo,    \* thread -> predictions still to make
  stack,   \* thread -> predictions under way, innermost last
  got      \* thread -> results so far, with the predictions they belong to
vars == <<cache, lock, todo, stack, got>>

EmptyCache(d) == [s0 |-> [k \in Keys(d) |-> 0], st |-> <<>>]
Init ==
  /\ cache = [d \in Decs |-> EmptyCache(d)]
  /\ lock = [d \in Decs |-> [up |-> None, ex |-> FALSE, rd |-> {}]]
  /\ todo \in [Threads -> Jobs]
  /\ stack = [t \in Threads |-> <<>>]
  /\ got = [t \in Threads |-> <<>>]

Top(t) == stack[t][Len(stack[t])]
SetTop(t, f) == stack' = [stack EXCEPT ![t] = [@ EXCEPT ![Len(@)] = f]]
Busy(t) == stack[t] /= <<>>
Frame(j) == [pc |-> IF j.look THEN "look" ELSE "acquire", j |-> j, i |-> 1, cur |-> 0, new |-> Err, slot |-> 0, r |-> Err, have |-> j.have]
Begin(t) ==
  /\ ~Busy(t) /\ todo[t] /= <<>>
  /\ stack' = [stack EXCEPT ![t] = <<Frame(Head(todo[t]))>>]
  /\ todo' = [todo EXCEPT ![t] = Tail(@)]
  /\ UNCHANGED <<cache, lock, got>>

Acquire(t) ==
  /\ Busy(t) /\ Top(t).pc = "acquire"
  /\ LET d == Top(t).j.d IN
     /\ lock[d].up = None
     /\ lock' = [lock EXCEPT ![d].up = t]
     /\ SetTop(t, [Top(t) EXCEPT !.pc = "start"])
  /\ UNCHANGED <<cache, todo, got>>
Start(t) ==
  /\ Busy(t) /\ Top(t).pc = "start"
  /\ LET f == Top(t)
         n == cache[f.j.d].s0[f.j.k] IN
     SetTop(t, IF n /= 0 THEN [f EXCEPT !.cur = n, !.pc = "loop"] ELSE [f EXCEPT !.new = StartOf(f.j.d, f.j.k), !.pc = "upstart"])
  /\ UNCHANGED <<cache, lock, todo, got>>
\* the place the content has, or will get
Slot(d, c) == LET S == {n \in DOMAIN cache[d].st : cache[d].st[n].c = c} IN
              IF S = {} THEN Len(cache[d].st) + 1 ELSE CHOOSE n \in S : TRUE
\* upgrading waits for the readers; the broken protocols choose the place before they have the lock for themselves
Upgrade(t) ==
  /\ Busy(t) /\ Top(t).pc \in {"upstart", "upedge"}
  /\ LET f == Top(t)
         d == f.j.d
         q == IF f.pc = "upstart" THEN "insstart" ELSE "insedge" IN
     IF Protocol = "upgrade" THEN
       /\ lock[d].up = t /\ lock[d].rd = {}
       /\ lock' = [lock EXCEPT ![d].ex = TRUE]
       /\ SetTop(t, [f EXCEPT !.pc = q])
     ELSE
       \* drops the lock, takes it again for writing
       /\ lock[d].up = t
       /\ lock' = [lock EXCEPT ![d].up = None]
       /\ SetTop(t, [f EXCEPT !.pc = IF q = "insstart" THEN "relockstart" ELSE "relockedge", !.slot = Slot(d, f.new)])
  /\ UNCHANGED <<cache, todo, got>>
Relock(t) ==
  /\ Busy(t) /\ Top(t).pc \in {"relockstart", "relockedge"}
  /\ LET f == Top(t)
         d == f.j.d IN
     /\ lock[d].up = None /\ lock[d].rd = {}
     /\ lock' = [lock EXCEPT ![d] = [up |-> t, ex |-> TRUE, rd |-> {}]]
     /\ SetTop(t, [f EXCEPT !.pc = IF f.pc = "relockstart" THEN "insstart" ELSE "insedge"])
  /\ UNCHANGED <<cache, todo, got>>
Entry(c) == [c |-> c, e |-> [x \in Syms |-> 0]]
WithState(ch, c, n) == IF n \in DOMAIN ch.st THEN ch ELSE [ch EXCEPT !.st = Append(@, Entry(c))]
Where(f) == IF Protocol = "stale" THEN f.slot ELSE Slot(f.j.d, f.new)
InsStart(t) ==
  /\ Busy(t) /\ Top(t).pc = "insstart"
  /\ LET f == Top(t)
         d == f.j.d
         n == Where(f) IN
     /\ cache' = [cache EXCEPT ![d] = [WithState(@, f.new, n) EXCEPT !.s0[f.j.k] = n]]
     /\ lock' = [lock EXCEPT ![d].ex = FALSE]
     /\ SetTop(t, [f EXCEPT !.cur = n, !.pc = "loop"])
  /\ UNCHANGED <<todo, got>>
InsEdge(t) ==
  /\ Busy(t) /\ Top(t).pc = "insedge"
  /\ LET f == Top(t)
         d == f.j.d
         x == f.j.w[f.i]
         n == IF f.new = Err THEN -1 ELSE Where(f)
         ch == IF f.new = Err THEN cache[d] ELSE WithState(cache[d], f.new, n) IN
     /\ cache' = [cache EXCEPT ![d] = [ch EXCEPT !.st[f.cur].e[x] = n]]
     /\ lock' = [lock EXCEPT ![d].ex = FALSE]
     /\ SetTop(t, IF n = -1 THEN [f EXCEPT !.r = Err, !.pc = "release"] ELSE [f EXCEPT !.cur = n, !.i = @ + 1, !.pc = "loop"])
  /\ UNCHANGED <<todo, got>>
\* one more symbol of the prediction; a parser that has no token yet runs the lexer first
Loop(t) ==
  /\ Busy(t) /\ Top(t).pc = "loop"
  /\ LET f == Top(t)
         d == f.j.d IN
     IF f.i > Len(f.j.w) THEN SetTop(t, [f EXCEPT !.r = cache[d].st[f.cur].c, !.pc = "release"])
     ELSE IF d = 1 /\ f.have < f.i THEN
       stack' = [stack EXCEPT ![t] = Append([@ EXCEPT ![Len(@)].have = @ + 1], Frame([d |-> 2, k |-> 0, w |-> <<f.j.w[f.i]>>, look |-> FALSE, have |-> 9]))]
     ELSE
       LET n == cache[d].st[f.cur].e[f.j.w[f.i]] IN
       SetTop(t, CASE n > 0 -> [f EXCEPT !.cur = n, !.i = @ + 1]
                   [] n = -1 -> [f EXCEPT !.r = Err, !.pc = "release"]
                   [] OTHER -> [f EXCEPT !.new = Delta(d, cache[d].st[f.cur].c, f.j.w[f.i]), !.pc = "upedge"])
  /\ UNCHANGED <<cache, lock, todo, got>>
Release(t) ==
  /\ Busy(t) /\ Top(t).pc = "release"
  /\ LET f == Top(t) IN
     /\ lock' = [lock EXCEPT ![f.j.d].up = None]
     /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
     /\ got' = [got EXCEPT ![t] = Append(@, [j |-> f.j, r |-> f.r])]
  /\ UNCHANGED <<cache, todo>>
\* printing a cache
Look(t) ==
  /\ Busy(t) /\ Top(t).pc = "look"
  /\ LET d == Top(t).j.d IN
     /\ ~lock[d].ex
     /\ lock' = [lock EXCEPT ![d].rd = @ \cup {t}]
     /\ SetTop(t, [Top(t) EXCEPT !.pc = "looked"])
  /\ UNCHANGED <<cache, todo, got>>
Looked(t) ==
  /\ Busy(t) /\ Top(t).pc = "looked"
  /\ lock' = [lock EXCEPT ![Top(t).j.d].rd = @ \ {t}]
  /\ stack' = [stack EXCEPT ![t] = <<>>]
  /\ UNCHANGED <<cache, todo, got>>

Step(t) == Begin(t) \/ Acquire(t) \/ Start(t) \/ Upgrade(t) \/ Relock(t) \/ InsStart(t) \/ InsEdge(t) \/ Loop(t) \/ Release(t) \/ Look(t) \/ Looked(t)
AllDone == \A t \in Threads : ~Busy(t) /\ todo[t] = <<>>
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

\* what is cached is what the automaton says
CacheIsRight ==
  \A d \in Decs :
    LET ch == cache[d] IN
    /\ \A k \in Keys(d) : ch.s0[k] /= 0 => ch.s0[k] \in DOMAIN ch.st /\ ch.st[ch.s0[k]].c = StartOf(d, k)
    /\ \A n \in DOMAIN ch.st, x \in Syms :
         LET m == ch.st[n].e[x] IN
         /\ m > 0 => m \in DOMAIN ch.st /\ ch.st[m].c = Delta(d, ch.st[n].c, x)
         /\ m = -1 => Delta(d, ch.st[n].c, x) = Err
\* a content is in the cache once
NoTwins == \A d \in Decs : \A a, b \in DOMAIN cache[d].st : cache[d].st[a].c = cache[d].st[b].c => a = b
\* every prediction gives what it gives alone
AsIfAlone == \A t \in Threads : \A i \in DOMAIN got[t] : got[t][i].r = Alone(got[t][i].j)
\* a cache being changed is nobody else's
Exclusive == \A d \in Decs : lock[d].ex => lock[d].up /= None /\ lock[d].rd = {}
\* what is cached stays as it is
Grows == [][\A d \in Decs : \A n \in DOMAIN cache[d].st : n \in DOMAIN cache'[d].st /\ cache'[d].st[n].c = cache[d].st[n].c
               /\ \A x \in Syms : cache[d].st[n].e[x] /= 0 => cache'[d].st[n].e[x] = cache[d].st[n].e[x]]_cache
Ends == <>AllDone
=============================================================================
