------------------------------- MODULE Names -------------------------------
(* What tokens and token types are called.  Text is a sequence of code        *)
(* points; a name that is absent is <<>>, a present one <<text>>.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, part, ok
vars == <<ci, part, ok>>

TEOF == -1
TEPS == -2
S(str) == CASE str = "EOF" -> <<69, 79, 70>>
            [] str = "<EOF>" -> <<60, 69, 79, 70, 62>>
            [] str = "<EPSILON>" -> <<60, 69, 80, 83, 73, 76, 79, 78, 62>>
            [] str = ", " -> <<44, 32>>
            [] str = "{}" -> <<123, 125>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Num(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)

(* ------------------------------- vocabulary ----------------------------- *)
At(tab, t) == IF t >= 0 /\ t < Len(tab) THEN tab[t + 1] ELSE <<>>
\* of one list of names, quoted ones are literals and capitalised ones symbols
Quoted(n) == n /= <<>> /\ n[1] /= <<>> /\ n[1][1] = 39
Capital(n) == n /= <<>> /\ n[1] /= <<>> /\ n[1][1] \in (65..90) \union {201, 1046}
Lits(c) == IF c.how = "names" THEN [k \in DOMAIN c.lit |-> IF Quoted(c.lit[k]) THEN c.lit[k] ELSE <<>>] ELSE c.lit
Syms(c) == IF c.how = "names" THEN [k \in DOMAIN c.lit |-> IF Capital(c.lit[k]) THEN c.lit[k] ELSE <<>>] ELSE c.sym
Disps(c) == IF c.how = "names" THEN c.lit ELSE IF c.how = "two" THEN <<>> ELSE c.disp
Literal(c, t) == At(Lits(c), t)
Symbol(c, t) == IF t = TEOF THEN <<S("EOF")>> ELSE At(Syms(c), t)
Display(c, t) ==
  IF At(Disps(c), t) /= <<>> THEN At(Disps(c), t)[1]
  ELSE IF Literal(c, t) /= <<>> THEN Literal(c, t)[1]
  ELSE IF Symbol(c, t) /= <<>> THEN Symbol(c, t)[1]
  ELSE Num(t)
Max2(a, b) == IF a > b THEN a ELSE b
MaxType(c) == Max2(Len(Lits(c)), Max2(Len(Syms(c)), Len(Disps(c)))) - 1
\* a set is printed in ascending order, in braces unless it has one element
Elem(c, t) == IF t = TEOF THEN S("<EOF>") ELSE IF t = TEPS THEN S("<EPSILON>") ELSE Display(c, t)
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
RECURSIVE List(_, _)
List(c, X) == LET x == Least(X) IN IF X = {x} THEN Elem(c, x) ELSE Elem(c, x) \o S(", ") \o List(c, X \ {x})
SetText(c, s) == LET X == {s[k] : k \in DOMAIN s} IN
  IF X = {} THEN S("{}") ELSE IF Cardinality(X) = 1 THEN List(c, X) ELSE <<123>> \o List(c, X) \o <<125>>

(* --------------------------------- tokens ------------------------------- *)
\* f: type, channel, start, stop, index, line, column
TextOf(c) == IF c.f[1] = TEOF THEN S("<EOF>") ELSE c.text
RECURSIVE Esc(_)
Esc(s) == IF s = <<>> THEN <<>>
          ELSE (CASE Head(s) = 10 -> <<92, 110>> [] Head(s) = 13 -> <<92, 114>> [] Head(s) = 9 -> <<92, 116>> [] OTHER -> <<Head(s)>>) \o Esc(Tail(s))
Shown(c) == <<91, 64>> \o Num(c.f[5]) \o <<44>> \o Num(c.f[3]) \o <<58>> \o Num(c.f[4]) \o <<61, 39>> \o Esc(TextOf(c)) \o <<39, 44, 60>> \o Num(c.f[1]) \o <<62>>
            \o (IF c.f[2] > 0 THEN Num(c.f[2]) ELSE <<>>) \o <<44>> \o Num(c.f[6]) \o <<58>> \o Num(c.f[7]) \o <<93>>

(* ------------------------------ the judgement --------------------------- *)
Right(c, p) ==
  CASE c.k = "voc" /\ p = 1 -> c.res.max = MaxType(c)
    [] c.k = "voc" /\ p = 2 -> c.res.names = [k \in DOMAIN c.q |-> <<Display(c, c.q[k]), Literal(c, c.q[k]), Symbol(c, c.q[k])>>]
    [] c.k = "voc" /\ p = 3 -> c.res.sets = [k \in DOMAIN c.sets |-> SetText(c, c.sets[k])]
    [] c.k = "tok" /\ p = 1 -> \A k \in DOMAIN c.res.shown : c.res.shown[k] = Shown(c)
    [] c.k = "tok" /\ p = 2 -> LET o == <<c.f[1], c.f[2], c.f[3], c.f[4], c.f[5], c.f[6], c.f[7]>> IN
                                 /\ \A k \in DOMAIN c.res.own : SubSeq(c.res.own[k], 1, 7) = o /\ (c.f[1] /= TEOF => c.res.own[k][8] = c.text)
                                 /\ \A k \in DOMAIN c.res.said : c.res.said[k] = TextOf(c)
    [] c.k = "tok" /\ p = 3 -> \* a copy has its own position, and a later move of the original does not move it
                                 /\ c.res.moved = <<c.f[5] + 7, c.f[5] + 7, c.f[5]>>
                                 /\ c.res.copy = <<c.f[1], c.f[2], c.f[3], c.f[4], c.f[6], c.f[7]>>
Init == ci \in DOMAIN Cases /\ part = 0 /\ ok = TRUE
Next == ok /\ part < 3 /\ part' = part + 1 /\ ok' = Right(Cases[ci], part + 1) /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
NamesAreRight == ok
=============================================================================
