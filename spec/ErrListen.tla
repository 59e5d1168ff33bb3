------------------------------ MODULE ErrListen ------------------------------
(* Error listeners of a parser: who is told what, and what the diagnostic     *)
(* listener makes of it.  State: the listeners in the order they were added.  *)
(* The reports of a parse (as a single recording listener hears them) and the *)
(* operations made at its actions drive the machine; what it delivers must be *)
(* what the listeners of the real parser recorded.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Gs == JsonDeserialize(IOEnv.GRAMS)
Cases == ndJsonDeserialize(IOEnv.CASES)   \* g, toks, ref (entries heard by the only listener, and ["a", k] marks), elog, eops

VARIABLES ci, at,      \* position in the reference
          lis,         \* listeners: <<"rec", id>> or <<"diag", exactOnly>>
          nid,         \* next id
          l, ok        \* position in the recording, agreement so far
vars == <<ci, at, lis, nid, l, ok>>
C == Cases[ci]
Rec == C.elog
Fits(evs, p) == p + Len(evs) <= Len(Rec) /\ \A k \in DOMAIN evs : Rec[p + k] = evs[k]

RECURSIVE Flat(_), Join(_), TextOf(_, _, _)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o ", " \o Join(Tail(s))
TextOf(c, a, b) == IF a > b \/ a >= Len(c.toks) THEN "" ELSE c.toks[a + 1][3] \o TextOf(c, a + 1, b)

(* --------------------------- diagnostic messages ------------------------ *)
Where(c, d) == LET g == Gs[c.g + 1] IN ToString(d) \o " (" \o g.rules[g.st[g.dec[d + 1] + 1].r + 1] \o ")"
Input(c, e) == ", input='" \o TextOf(c, e[3], e[4]) \o "'"
Message(c, e) ==
  CASE e[1] = "am" -> "reportAmbiguity d=" \o Where(c, e[2]) \o ": ambigAlts={" \o Join(e[6]) \o "}" \o Input(c, e)
    [] e[1] = "fc" -> "reportAttemptingFullContext d=" \o Where(c, e[2]) \o Input(c, e)
    [] e[1] = "cs" -> "reportContextSensitivity d=" \o Where(c, e[2]) \o Input(c, e)
Silent(e, exact) == e[1] = "e" \/ (e[1] = "am" /\ exact = 1 /\ e[5] = 0)
Now(e) == e[Len(e)]                                \* the token the parser is looking at
Told(e) == Flat([k \in DOMAIN lis |-> IF lis[k][1] = "rec" THEN <<<<lis[k][2], e>>>> ELSE <<>>])
\* one report: every listener in order; a diagnostic listener tells all of them its message at once
Deliver(c, e) ==
  Flat([k \in DOMAIN lis |-> IF lis[k][1] = "rec" THEN <<<<lis[k][2], e>>>>
                             ELSE IF Silent(e, lis[k][2]) THEN <<>>
                             ELSE Told(<<"e", Now(e), 1, Now(e), 0, Message(c, e)>>)])

(* ------------------------------- the machine ---------------------------- *)
Ops(c, k) == LET s == SelectSeq(c.eops, LAMBDA x : x[1] = k) IN [j \in DOMAIN s |-> s[j][2]]
RECURSIVE Apply(_, _)
Apply(st, os) ==
  IF os = <<>> THEN st
  ELSE LET o == Head(os)
           s == CASE o = 0 -> [lis |-> Append(st.lis, <<"rec", st.nid>>), nid |-> st.nid + 1, ev |-> Append(st.ev, <<-1, <<"op", o>>>>)]
                  [] o \in {1, 2} -> [st EXCEPT !.lis = Append(@, <<"diag", o - 1>>), !.ev = Append(@, <<-1, <<"op", o>>>>)]
                  [] OTHER -> [st EXCEPT !.lis = <<>>, !.ev = Append(@, <<-1, <<"op", o>>>>)] IN
       Apply(s, Tail(os))
Do(k, pre) == LET s == Apply([lis |-> lis, nid |-> nid, ev |-> pre], Ops(C, k)) IN
              /\ lis' = s.lis /\ nid' = s.nid /\ l' = l + Len(s.ev) /\ ok' = Fits(s.ev, l)

Init == ci \in DOMAIN Cases /\ at = 0 /\ lis = <<>> /\ nid = 0 /\ l = 0 /\ ok = TRUE
Start == at = 0 /\ at' = 1 /\ UNCHANGED ci /\ Do(0, <<>>)
Action == /\ ok /\ at > 0 /\ at <= Len(C.ref) /\ C.ref[at][1] = "a"
          /\ Do(C.ref[at][2], <<<<-1, C.ref[at]>>>>) /\ at' = at + 1 /\ UNCHANGED ci
Report == /\ ok /\ at > 0 /\ at <= Len(C.ref) /\ C.ref[at][1] /= "a"
          /\ LET E == Deliver(C, C.ref[at]) IN l' = l + Len(E) /\ ok' = Fits(E, l)
          /\ at' = at + 1 /\ UNCHANGED <<ci, lis, nid>>
Finish == /\ ok /\ at = Len(C.ref) + 1 /\ at' = at + 1 /\ ok' = (l = Len(Rec)) /\ UNCHANGED <<ci, lis, nid, l>>
Next == Start \/ Action \/ Report \/ Finish
Spec == Init /\ [][Next]_vars

EveryListenerHearsEverything == ok
=============================================================================
