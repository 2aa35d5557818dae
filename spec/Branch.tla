------------------------------- MODULE Branch -------------------------------
(***************************************************************************)
(* Which parts of a program run, given the variables: if statements, else- *)
(* if chains, conditional and logical expressions over markers.  Markers   *)
(* are names mI (true) and wI (false), numbered in the text; tests are     *)
(* built from tt (true), ff (false), qq() (unknown).  A piece of program   *)
(* keeps its text, its truth value v ("T", "F", "?"), the value g that is  *)
(* required to be found (an operand of unknown value makes it unknown: the *)
(* evaluator may give up), the markers that run for certain (must) and     *)
(* those that are not certain to be skipped, given g (may).                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS K, Kinds

VARIABLES stk, n
vars == <<stk, n>>
P(k, t, v, g, must, may) == [k |-> k, t |-> t, v |-> v, g |-> g, must |-> must, may |-> may]
Init == stk = <<>> /\ n = 0
Top(i) == stk[Len(stk) - i]
Rest(i) == SubSeq(stk, 1, Len(stk) - i)
Put(s, e) == n < K /\ stk' = Append(s, e) /\ n' = n + 1
Push(e) == Len(stk) < K - n /\ Put(stk, e)
IsE(i) == Len(stk) > i /\ Top(i).k \in {"e", "t"}   \* an expression (t: without markers, usable as test)
IsT(i) == Len(stk) > i /\ Top(i).k = "t"
IsS(i) == Len(stk) > i                               \* any, as a statement
Id == ToString(n)
Mark == Push(P("e", "m" \o Id, "T", "T", {"m" \o Id}, {"m" \o Id}))
Wark == Push(P("e", "w" \o Id, "F", "F", {"w" \o Id}, {"w" \o Id}))
Tests == {P("t", "tt", "T", "T", {}, {}), P("t", "ff", "F", "F", {}, {}), P("t", "qq()", "?", "?", {}, {})}
Test == \E t \in Tests : Push(t)

NotV(v) == CASE v = "T" -> "F" [] v = "F" -> "T" [] OTHER -> "?"
\* the part x runs if c holds / does not hold
When(c, x) == [x EXCEPT !.must = IF c.v = "T" THEN x.must ELSE {}, !.may = IF c.g = "F" THEN {} ELSE x.may]
Unless(c, x) == [x EXCEPT !.must = IF c.v = "F" THEN x.must ELSE {}, !.may = IF c.g = "T" THEN {} ELSE x.may]
Both(k, t, v, g, a, b) == P(k, t, v, g, a.must \cup b.must, a.may \cup b.may)
Par(e) == "(" \o e.t \o ")"
Kind2(a, b) == IF a.k = "t" /\ b.k = "t" THEN "t" ELSE "e"
AndV(a, b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "T" THEN b ELSE IF b = "T" THEN a ELSE "?"
OrV(a, b) == NotV(AndV(NotV(a), NotV(b)))
Known(g, x) == IF \E i \in DOMAIN x : x[i] = "?" THEN "?" ELSE g
And == IsE(0) /\ IsE(1) /\ LET a == Top(1)  b == Top(0) IN
       Put(Rest(2), Both(Kind2(a, b), Par(a) \o " && " \o Par(b), AndV(a.v, b.v), Known(AndV(a.g, b.g), <<a.g, b.g>>), a, When(a, b)))
Or == IsE(0) /\ IsE(1) /\ LET a == Top(1)  b == Top(0) IN
      Put(Rest(2), Both(Kind2(a, b), Par(a) \o " || " \o Par(b), OrV(a.v, b.v), Known(OrV(a.g, b.g), <<a.g, b.g>>), a, Unless(a, b)))
Not == IsE(0) /\ Put(Rest(1), P(Top(0).k, "!" \o Par(Top(0)), NotV(Top(0).v), NotV(Top(0).g), Top(0).must, Top(0).may))
Sum == IsE(0) /\ IsE(1) /\ LET a == Top(1)  b == Top(0) IN
       Put(Rest(2), Both(Kind2(a, b), Par(a) \o " + " \o Par(b), "?", "?", a, b))
CondV(c, a, b) == CASE c = "T" -> a [] c = "F" -> b [] OTHER -> IF a = b THEN a ELSE "?"
Cond == IsT(2) /\ IsE(1) /\ IsE(0) /\ LET c == Top(2)  a == Top(1)  b == Top(0) IN
        Put(Rest(3), Both("e", Par(c) \o " ? " \o Par(a) \o " : " \o Par(b),
                          CondV(c.v, a.v, b.v), "?", When(c, a), Unless(c, b)))
S(e) == IF e.k = "s" THEN e.t ELSE e.t \o ";"
If1 == IsT(1) /\ IsS(0) /\ LET c == Top(1)  a == Top(0) IN Put(Rest(2), LET w == When(c, a) IN P("s", "if (" \o c.t \o ") { " \o S(a) \o " }", "?", "?", w.must, w.may))
If2 == IsT(2) /\ IsS(1) /\ IsS(0) /\ LET c == Top(2)  a == Top(1)  b == Top(0) IN
       Put(Rest(3), Both("s", "if (" \o c.t \o ") { " \o S(a) \o " } else " \o (IF b.k = "s" THEN S(b) ELSE "{ " \o S(b) \o " }"), "?", "?", When(c, a), Unless(c, b)))
Block == IsS(1) /\ IsS(0) /\ Top(0).k # "t" /\ Top(1).k # "t" /\ LET a == Top(1)  b == Top(0) IN Put(Rest(2), Both("s", "{ " \o S(a) \o " " \o S(b) \o " }", "?", "?", a, b))
Next == \/ ("m" \in Kinds /\ Mark) \/ ("w" \in Kinds /\ Wark) \/ ("t" \in Kinds /\ Test)
        \/ ("&&" \in Kinds /\ And) \/ ("||" \in Kinds /\ Or) \/ ("!" \in Kinds /\ Not) \/ ("+" \in Kinds /\ Sum)
        \/ ("?" \in Kinds /\ Cond) \/ ("if" \in Kinds /\ If1) \/ ("else" \in Kinds /\ If2) \/ (";" \in Kinds /\ Block)
Spec == Init /\ [][Next]_vars

MustMay == \A i \in 1..Len(stk) : stk[i].must \subseteq stk[i].may
Emit == Len(stk) = 1 /\ n > 1 /\ stk[1].k # "t" => PrintT(<<"V", S(stk[1]), ToString(stk[1].must), ToString(stk[1].may)>>)
=============================================================================
