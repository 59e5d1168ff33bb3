------------------------------ MODULE ParserRel ------------------------------
(* Relations between recorded parses of the same input by differently         *)
(* configured parsers.  A case has a kind and runs; every run has             *)
(*   mode 0 full context, 1 context-insensitive, 2 exact ambiguities;         *)
(*   bail, tree; err (number of errors), ev (its events), t (its tree)        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

End(r) == r.ev[Len(r.ev)]
Of(r, kinds) == SelectSeq(r.ev, LAMBDA e : e[1] \in kinds)
ErrFree(r) == r.err = 0 /\ End(r)[2] = "ok"

\* the runs are alike in everything (same mode, other caches)
Same(c) == \A k \in DOMAIN c.runs : c.runs[k].ev = c.runs[1].ev /\ c.runs[k].t = c.runs[1].t
\* a context-insensitive parse without errors is the full-context one, and the two full-context modes accept the same inputs with the same trees
Modes(c) ==
  \A a, b \in DOMAIN c.runs :
    LET x == c.runs[a]
        y == c.runs[b] IN
    /\ x.mode = 1 /\ y.mode /= 1 /\ ErrFree(x) => ErrFree(y) /\ y.t = x.t /\ Of(x, {"m"}) = Of(y, {"m"})
    /\ x.mode = 0 /\ y.mode = 2 => /\ (ErrFree(x) <=> ErrFree(y))
                                   /\ (ErrFree(x) => x.t = y.t /\ Of(x, {"m", "p"}) = Of(y, {"m", "p"}))
\* how far the parse got before the first error: its events up to there
RECURSIVE Before(_, _)
Before(ev, k) == IF k > Len(ev) \/ ev[k][1] \in {"e", "end"} THEN <<>> ELSE <<ev[k]>> \o Before(ev, k + 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Count(ev, kd) == Cardinality({k \in DOMAIN ev : ev[k][1] = kd})
\* runs[1] by the default strategy, runs[2] by the bail-out strategy
Bail(c) ==
  LET d == c.runs[1]
      b == c.runs[2]
      bev == SelectSeq(b.ev, LAMBDA e : e[1] \notin {"e", "end"})
      dev == Before(d.ev, 1)
      keep == {"m", "p", "a", "te", "en", "ex"}
      sel(ev) == SelectSeq(ev, LAMBDA e : e[1] \in keep) IN
  /\ ErrFree(d) <=> End(b)[2] = "ok"
  /\ End(b)[2] \in {"ok", "bail"}
  /\ IF ErrFree(d) THEN b.t = d.t /\ b.err = 0 /\ sel(b.ev) = sel(d.ev)
     ELSE /\ b.t = <<>> /\ b.err <= 1
          \* nothing was repaired: no error leaf, no made-up token, and nothing matched beyond what the default parse matched before its first error
          /\ Count(b.ev, "er") = 0 /\ \A k \in DOMAIN b.ev : b.ev[k][1] = "m" => b.ev[k][2] >= 0
          /\ Of(b, {"m", "te"}) = SelectSeq(dev, LAMBDA e : e[1] \in {"m", "te"})
          /\ LET m == Of(b, {"m"}) IN End(b)[3] = c.nxt[IF m = <<>> THEN 1 ELSE IF m[Len(m)][2] + 2 > Len(c.nxt) THEN Len(c.nxt) ELSE m[Len(m)][2] + 2]
\* without a tree everything else is the same
NoTree(c) ==
  LET x == c.runs[1]
      y == c.runs[2]
      keep == {"e", "p", "m", "a", "am", "fc", "cs", "x", "end"} IN
  Of(x, keep) = Of(y, keep)

Ok(c) == CASE c.kind = "same" -> Same(c)
           [] c.kind = "modes" -> Modes(c)
           [] c.kind = "bail" -> Bail(c)
           [] c.kind = "notree" -> NoTree(c)
VARIABLES ci, ok, n
Init == ci \in DOMAIN Cases /\ ok = TRUE /\ n = 0
Next == n = 0 /\ n' = 1 /\ ci' = ci /\ ok' = Ok(Cases[ci])
Spec == Init /\ [][Next]_<<ci, ok, n>>
Related == ok
=============================================================================
