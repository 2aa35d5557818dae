-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* The value JavaScript gives to expressions over literals and variables.  *)
(* Expressions are built on a stack (operands first); each keeps its text  *)
(* and its value.  Values:                                                 *)
(*   <<"u">> undefined  <<"n">> null  <<"b", x>> booleans                   *)
(*   <<"num", s, p, q>> the number s*p/q (s = 1 or -1, also for zero; q a  *)
(*   power of two)  <<"nan">>  <<"inf", s>>                                 *)
(*   <<"s", c>> strings (sequences of characters)                          *)
(*   <<"a", id, e>> arrays  <<"o", id, keys, values>> objects; id 0: made  *)
(*   by a literal, equal to no other object                                *)
(*   <<"?">> not specified here (errors, numbers out of the bounds, ...)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Atoms, Ops, K

U == <<"u">>
Nul == <<"n">>
B(x) == <<"b", x>>
Q == <<"?">>
NaN == <<"nan">>
Str(c) == <<"s", c>>
BIG == 20000

(* ---- numbers ---- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256}
Num(s, p, q) == IF p > BIG \/ q > BIG THEN Q
                ELSE LET g == IF p = 0 THEN q ELSE Gcd(p, q) IN
                     IF (q \div g) \in Pow2 THEN <<"num", s, p \div g, q \div g>> ELSE Q
I(n) == IF n < 0 THEN <<"num", -1, -n, 1>> ELSE <<"num", 1, n, 1>>
IsNum(v) == v[1] \in {"num", "nan", "inf"}
Neg(v) == CASE v[1] = "num" -> <<"num", -v[2], v[3], v[4]>> [] v[1] = "inf" -> <<"inf", -v[2]>> [] OTHER -> v
Small(v) == v[1] # "num" \/ (v[3] <= 1000 /\ v[4] <= 16)
Plus(a, b) ==
  IF a = Q \/ b = Q \/ ~Small(a) \/ ~Small(b) THEN Q
  ELSE IF a = NaN \/ b = NaN THEN NaN
  ELSE IF a[1] = "inf" THEN IF b[1] = "inf" /\ a # b THEN NaN ELSE a
  ELSE IF b[1] = "inf" THEN b
  ELSE LET n == a[2] * a[3] * b[4] + b[2] * b[3] * a[4] IN
       IF n = 0 THEN Num(IF a[3] = 0 /\ b[3] = 0 /\ a[2] = -1 /\ b[2] = -1 THEN -1 ELSE 1, 0, 1)
       ELSE Num(IF n < 0 THEN -1 ELSE 1, IF n < 0 THEN -n ELSE n, a[4] * b[4])
Times(a, b) ==
  IF a = Q \/ b = Q \/ ~Small(a) \/ ~Small(b) THEN Q
  ELSE IF a = NaN \/ b = NaN THEN NaN
  ELSE IF a[1] = "inf" \/ b[1] = "inf"
       THEN IF (a[1] = "num" /\ a[3] = 0) \/ (b[1] = "num" /\ b[3] = 0) THEN NaN ELSE <<"inf", a[2] * b[2]>>
  ELSE Num(a[2] * b[2], a[3] * b[3], a[4] * b[4])
Over(a, b) ==
  IF a = Q \/ b = Q \/ ~Small(a) \/ ~Small(b) THEN Q
  ELSE IF a = NaN \/ b = NaN THEN NaN
  ELSE IF a[1] = "inf" THEN IF b[1] = "inf" THEN NaN ELSE <<"inf", a[2] * b[2]>>
  ELSE IF b[1] = "inf" THEN Num(a[2] * b[2], 0, 1)
  ELSE IF b[3] = 0 THEN IF a[3] = 0 THEN NaN ELSE <<"inf", a[2] * b[2]>>
  ELSE Num(a[2] * b[2], a[3] * b[4], a[4] * b[3])
NumEq(a, b) == IF a = NaN \/ b = NaN THEN FALSE
               ELSE IF a[1] = "inf" \/ b[1] = "inf" THEN a = b
               ELSE (a[3] = 0 /\ b[3] = 0) \/ a = b
Less(a, b) == IF a = NaN \/ b = NaN \/ a = b THEN FALSE
              ELSE IF a[1] = "inf" THEN a[2] = -1 ELSE IF b[1] = "inf" THEN b[2] = 1
              ELSE a[2] * a[3] * b[4] < b[2] * b[3] * a[4]

(* ---- conversions ---- *)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE Append(NatStr(n \div 10), Digits[(n % 10) + 1])
RECURSIVE Frac(_, _)
Frac(r, q) == IF r = 0 THEN <<>> ELSE <<Digits[((r * 10) \div q) + 1]>> \o Frac((r * 10) % q, q)
NumStr(v) == CASE v = NaN -> <<"N", "a", "N">>
               [] v[1] = "inf" -> (IF v[2] = -1 THEN <<"-">> ELSE <<>>) \o <<"I", "n", "f", "i", "n", "i", "t", "y">>
               [] OTHER -> (IF v[2] = -1 /\ v[3] # 0 THEN <<"-">> ELSE <<>>) \o NatStr(v[3] \div v[4])
                           \o (IF v[3] % v[4] = 0 THEN <<>> ELSE <<".">> \o Frac(v[3] % v[4], v[4]))
White == {" ", "\t", "\n"}
RECURSIVE TrimL(_)
TrimL(c) == IF c # <<>> /\ Head(c) \in White THEN TrimL(Tail(c)) ELSE c
RECURSIVE TrimR(_)
TrimR(c) == IF c # <<>> /\ c[Len(c)] \in White THEN TrimR(SubSeq(c, 1, Len(c) - 1)) ELSE c
RECURSIVE DigNum(_)
DigNum(c) == IF c = <<>> THEN 0 ELSE DigNum(SubSeq(c, 1, Len(c) - 1)) * 10 + DigVal(c[Len(c)])
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN 1 ELSE 10 * Ten(n - 1)
AllDig(c) == \A i \in 1..Len(c) : IsDigit(c[i])
Unsigned(c) ==
  IF c = <<"I", "n", "f", "i", "n", "i", "t", "y">> THEN <<"inf", 1>>
  ELSE IF c = <<>> \/ ~(IsDigit(Head(c)) \/ Head(c) = ".") THEN NaN
  ELSE IF \E i \in 1..Len(c) : c[i] \in {"e", "x", "b", "o"} THEN Q
  ELSE IF Len(c) > 6 THEN Q
  ELSE LET dots == {i \in 1..Len(c) : c[i] = "."} IN
       IF dots = {} THEN IF AllDig(c) THEN IF Len(c) > 4 THEN Q ELSE Num(1, DigNum(c), 1) ELSE NaN
       ELSE IF Cardinality(dots) > 1 \/ Len(c) = 1 THEN NaN
       ELSE LET d == CHOOSE i \in dots : TRUE
                h == SubSeq(c, 1, d - 1)
                t == SubSeq(c, d + 1, Len(c))
            IN IF ~AllDig(h) \/ ~AllDig(t) THEN NaN
               ELSE IF Len(c) > 5 THEN Q ELSE Num(1, DigNum(h \o t), Ten(Len(t)))
StrNum(s) == LET c == TrimR(TrimL(s)) IN
             IF c = <<>> THEN I(0)
             ELSE IF Head(c) \in {"+", "-"} THEN IF Unsigned(Tail(c)) = Q THEN Q
                                                 ELSE IF Head(c) = "-" THEN Neg(Unsigned(Tail(c))) ELSE Unsigned(Tail(c))
             ELSE Unsigned(c)

Word == [true |-> <<"t", "r", "u", "e">>, false |-> <<"f", "a", "l", "s", "e">>, null |-> <<"n", "u", "l", "l">>,
         undefined |-> <<"u", "n", "d", "e", "f", "i", "n", "e", "d">>, object |-> <<"o", "b", "j", "e", "c", "t">>,
         number |-> <<"n", "u", "m", "b", "e", "r">>, string |-> <<"s", "t", "r", "i", "n", "g">>,
         boolean |-> <<"b", "o", "o", "l", "e", "a", "n">>]
IsObj(v) == v[1] \in {"a", "o"}
RECURSIVE ToStr(_)
RECURSIVE Join(_)
Join(e) == IF e = <<>> THEN <<>>
           ELSE (IF Head(e)[1] \in {"u", "n"} THEN <<>> ELSE ToStr(Head(e))) \o (IF Len(e) > 1 THEN <<",">> ELSE <<>>) \o Join(Tail(e))
ToStr(v) == CASE v[1] = "u" -> Word.undefined [] v[1] = "n" -> Word.null
              [] v[1] = "b" -> IF v[2] THEN Word.true ELSE Word.false
              [] v[1] = "s" -> v[2]
              [] v[1] = "a" -> Join(v[3])
              [] v[1] = "o" -> <<"[">> \o Word.object \o <<" ", "O">> \o Tail(Word.object) \o <<"]">>
              [] OTHER -> NumStr(v)
Prim(v) == IF IsObj(v) THEN Str(ToStr(v)) ELSE v
RECURSIVE ToNum(_)
ToNum(v) == CASE v[1] = "u" -> NaN [] v[1] = "n" -> I(0) [] v[1] = "b" -> I(IF v[2] THEN 1 ELSE 0)
              [] v[1] = "s" -> StrNum(v[2]) [] IsObj(v) -> ToNum(Prim(v)) [] OTHER -> v
Truthy(v) == CASE v[1] \in {"u", "n", "nan"} -> FALSE [] v[1] = "b" -> v[2] [] v[1] = "s" -> v[2] # <<>>
               [] v[1] = "num" -> v[3] # 0 [] OTHER -> TRUE

(* ---- operators ---- *)
Type(v) == IF IsNum(v) THEN "num" ELSE v[1]
StrictEq(a, b) == IF IsObj(a) /\ IsObj(b) THEN a[2] # 0 /\ a[2] = b[2]
                  ELSE IF Type(a) # Type(b) THEN FALSE
                  ELSE IF IsNum(a) THEN NumEq(a, b) ELSE a = b
RECURSIVE LooseEq(_, _)
LooseEq(a, b) == IF a = Q \/ b = Q THEN Q
                 ELSE IF a[1] \in {"u", "n"} \/ b[1] \in {"u", "n"} THEN B(a[1] \in {"u", "n"} /\ b[1] \in {"u", "n"})
                 ELSE IF Type(a) = Type(b) \/ (IsObj(a) /\ IsObj(b)) THEN B(StrictEq(a, b))
                 ELSE IF IsObj(a) THEN LooseEq(Prim(a), b)
                 ELSE IF IsObj(b) THEN LooseEq(a, Prim(b))
                 ELSE LET x == ToNum(a)  y == ToNum(b) IN IF x = Q \/ y = Q THEN Q ELSE B(NumEq(x, y))
Not(v) == IF v = Q THEN Q ELSE B(~v[2])
Add(a, b) == LET x == Prim(a)  y == Prim(b) IN
             IF x[1] = "s" \/ y[1] = "s" THEN Str(ToStr(x) \o ToStr(y)) ELSE Plus(ToNum(x), ToNum(y))
Bin(op, a, b) ==
  CASE op = "&&" -> IF Truthy(a) THEN b ELSE a
    [] op = "||" -> IF Truthy(a) THEN a ELSE b
    [] op = "??" -> IF a[1] \in {"u", "n"} THEN b ELSE a
    [] op = "==" -> LooseEq(a, b) [] op = "!=" -> Not(LooseEq(a, b))
    [] op = "===" -> B(StrictEq(a, b)) [] op = "!==" -> B(~StrictEq(a, b))
    [] op = "+" -> Add(a, b)
    [] op = "-" -> LET x == ToNum(a)  y == ToNum(b) IN IF x = Q \/ y = Q THEN Q ELSE Plus(x, Neg(y))
    [] op = "*" -> Times(ToNum(a), ToNum(b)) [] op = "/" -> Over(ToNum(a), ToNum(b))
    [] op \in {"<", ">="} -> IF Prim(a)[1] = "s" /\ Prim(b)[1] = "s" THEN Q
               ELSE LET x == ToNum(a)  y == ToNum(b) IN IF x = Q \/ y = Q THEN Q
                    ELSE IF op = "<" THEN B(Less(x, y)) ELSE B(x # NaN /\ y # NaN /\ ~Less(x, y))
    [] op = "," -> b
    [] OTHER -> Q
Un(op, a) ==
  CASE op = "!" -> B(~Truthy(a))
    [] op = "neg" -> IF ToNum(a) = Q THEN Q ELSE Neg(ToNum(a))
    [] op = "pos" -> ToNum(a)
    [] op = "typeof" -> Str(CASE a[1] = "u" -> Word.undefined [] a[1] \in {"n", "a", "o"} -> Word.object [] a[1] = "b" -> Word.boolean
                              [] a[1] = "s" -> Word.string [] OTHER -> Word.number)
    [] op = "void" -> U
    [] op = "tpl" -> Str(ToStr(a))
    [] OTHER -> Q
\* the property with this name (a sequence of characters)
Get(o, name) ==
  CASE o[1] \in {"u", "n"} -> Q      \* an error
    [] o[1] = "a" -> IF name = <<"l", "e", "n", "g", "t", "h">> THEN I(Len(o[3]))
                     ELSE IF \E i \in 1..Len(o[3]) : NatStr(i - 1) = name THEN o[3][CHOOSE i \in 1..Len(o[3]) : NatStr(i - 1) = name]
                     ELSE IF name # <<>> /\ AllDig(name) THEN U
                     ELSE IF name = <<>> \/ name[1] \in {" ", "-", "1", "0", "."} \/ name \in {Word.true, Word.undefined, Word.null, <<"p">>, <<"a">>} THEN U ELSE Q
    [] o[1] = "o" -> IF \E i \in 1..Len(o[3]) : o[3][i] = name THEN o[4][CHOOSE i \in 1..Len(o[3]) : o[3][i] = name]
                     ELSE IF name \in {<<"p">>, <<"q">>, <<"1">>, <<"0">>, <<>>, Word.true, Word.undefined, Word.null} THEN U ELSE Q
    [] o[1] = "s" -> IF name = <<"l", "e", "n", "g", "t", "h">> THEN I(Len(o[2]))
                     ELSE IF \E i \in 1..Len(o[2]) : NatStr(i - 1) = name THEN Str(<<o[2][CHOOSE i \in 1..Len(o[2]) : NatStr(i - 1) = name]>>)
                     ELSE IF name = <<"p">> THEN U ELSE Q
    [] OTHER -> IF name = <<"p">> THEN U ELSE Q
Includes(o, x) == IF o[1] # "a" THEN Q
                  ELSE B(\E i \in 1..Len(o[3]) : StrictEq(o[3][i], x) \/ (o[3][i] = NaN /\ x = NaN))

(* ---- atoms: literals and variables ---- *)
dev == <<"d">>
ArrVar == <<"a", 1, <<I(1), Str(<<"1">>), Nul>>>>
Atom(t) ==
  CASE t = "0" -> I(0) [] t = "1" -> I(1) [] t = "2" -> I(2) [] t = "3" -> I(3) [] t = "10" -> I(10) [] t = "0.5" -> Num(1, 1, 2)
    [] t = "true" -> B(TRUE) [] t = "false" -> B(FALSE) [] t = "null" -> Nul [] t = "undefined" -> U
    [] t = "''" -> Str(<<>>) [] t = "'1'" -> Str(<<"1">>) [] t = "'a'" -> Str(<<"a">>) [] t = "' 2 '" -> Str(<<" ", "2", " ">>) [] t = "'p'" -> Str(<<"p">>)
    [] t = "'0'" -> Str(<<"0">>) [] t = "'01'" -> Str(<<"0", "1">>) [] t = "'true'" -> Str(Word.true) [] t = "'1.5'" -> Str(<<"1", ".", "5">>)
    [] t = "'-'" -> Str(<<"-">>) [] t = "'inf'" -> Str(<<"i", "n", "f">>) [] t = "'Infinity'" -> Str(<<"I", "n", "f", "i", "n", "i", "t", "y">>)
    [] t = "[]" -> <<"a", 0, <<>>>>
    [] t = "one" -> I(1) [] t = "dev" -> Str(dev) [] t = "yes" -> B(TRUE) [] t = "nul" -> Nul [] t = "none" -> U
    [] t = "arr" -> ArrVar
    [] t = "obj" -> <<"o", 2, <<<<"p">>, <<"q">>, <<"1">>>>, <<Str(dev), ArrVar, I(0)>>>>
    [] t = "int" -> I(1)

(* ---- building ---- *)
VARIABLES stk, n
vars == <<stk, n>>
E(t, v) == [t |-> t, v |-> v]
Par(e) == "(" \o e.t \o ")"

Init == stk = <<>> /\ n = 0
Can == n < K
Put(s, e) == stk' = Append(s, e) /\ n' = n + 1
Push(t) == Can /\ Len(stk) < K - n /\ Put(stk, E(t, Atom(t)))
Top(i) == stk[Len(stk) - i]
Rest(i) == SubSeq(stk, 1, Len(stk) - i)
Bad(s) == \E i \in 1..Len(s) : s[i].v = Q
Val(s, v) == IF Bad(s) THEN Q ELSE v
Binary(op) == /\ Can /\ Len(stk) >= 2
              /\ Put(Rest(2), E(Par(Top(1)) \o " " \o op \o " " \o Par(Top(0)), Val(<<Top(1), Top(0)>>, Bin(op, Top(1).v, Top(0).v))))
UnText(op) == CASE op = "neg" -> "-" [] op = "pos" -> "+" [] op = "!" -> "!" [] OTHER -> op \o " "
Unary(op) == /\ Can /\ Len(stk) >= 1
             /\ Put(Rest(1), E(IF op = "tpl" THEN "`${" \o Top(0).t \o "}`" ELSE UnText(op) \o Par(Top(0)), Val(<<Top(0)>>, Un(op, Top(0).v))))
Arr(k) == /\ Can /\ Len(stk) >= k
          /\ LET xs == SubSeq(stk, Len(stk) - k + 1, Len(stk)) IN
             Put(Rest(k), E(IF k = 1 THEN "[" \o Par(xs[1]) \o "]" ELSE "[" \o Par(xs[1]) \o ", " \o Par(xs[2]) \o "]",
                            Val(xs, <<"a", 0, [i \in 1..k |-> xs[i].v]>>)))
Hole == Can /\ Len(stk) >= 1 /\ Put(Rest(1), E("[, " \o Par(Top(0)) \o "]", Val(<<Top(0)>>, <<"a", 0, <<U, Top(0).v>>>>)))
Obj == Can /\ Len(stk) >= 1 /\ Put(Rest(1), E("{p: " \o Par(Top(0)) \o "}", Val(<<Top(0)>>, <<"o", 0, <<<<"p">>>>, <<Top(0).v>>>>)))
Mem(t, name) == Can /\ Len(stk) >= 1 /\ Put(Rest(1), E(Par(Top(0)) \o t, Val(<<Top(0)>>, Get(Top(0).v, name))))
OptMem == Can /\ Len(stk) >= 1
          /\ Put(Rest(1), E(Par(Top(0)) \o "?.p", Val(<<Top(0)>>, IF Top(0).v[1] \in {"u", "n"} THEN U ELSE Get(Top(0).v, <<"p">>))))
Index == Can /\ Len(stk) >= 2
         /\ Put(Rest(2), E(Par(Top(1)) \o "[" \o Top(0).t \o "]", Val(<<Top(1), Top(0)>>, Get(Top(1).v, ToStr(Top(0).v)))))
Incl == Can /\ Len(stk) >= 2
        /\ Put(Rest(2), E(Par(Top(1)) \o ".includes(" \o Par(Top(0)) \o ")", Val(<<Top(1), Top(0)>>, Includes(Top(1).v, Top(0).v))))
Incl2 == Can /\ Len(stk) >= 1
         /\ Put(Rest(1), E("[1, 2].includes(" \o Par(Top(0)) \o ", 1)",
                           Val(<<Top(0)>>, B(StrictEq(I(2), Top(0).v)))))
Cond == Can /\ Len(stk) >= 3
        /\ Put(Rest(3), E(Par(Top(2)) \o " ? " \o Par(Top(1)) \o " : " \o Par(Top(0)),
                          Val(<<Top(2), Top(1), Top(0)>>, IF Truthy(Top(2).v) THEN Top(1).v ELSE Top(0).v)))
BinOps == {"&&", "||", "??", "==", "!=", "===", "!==", "+", "-", "*", "/", "<", ">=", ",", "%", "in"}
UnOps == {"!", "neg", "pos", "typeof", "void", "tpl", "~"}
Next == \/ \E t \in Atoms : Push(t)
        \/ \E op \in Ops \cap BinOps : Binary(op)
        \/ \E op \in Ops \cap UnOps : Unary(op)
        \/ ("arr1" \in Ops /\ Arr(1)) \/ ("arr2" \in Ops /\ Arr(2)) \/ ("hole" \in Ops /\ Hole) \/ ("objl" \in Ops /\ Obj)
        \/ ("mem" \in Ops /\ (Mem(".p", <<"p">>) \/ Mem("['q']", <<"q">>))) \/ ("len" \in Ops /\ Mem(".length", <<"l", "e", "n", "g", "t", "h">>))
        \/ ("opt" \in Ops /\ OptMem) \/ ("idx" \in Ops /\ Index) \/ ("inc" \in Ops /\ Incl) \/ ("inc2" \in Ops /\ Incl2) \/ ("cond" \in Ops /\ Cond)
Spec == Init /\ [][Next]_vars

(* ---- properties of the specification ---- *)
\* every value is of a known kind
RECURSIVE Ok(_)
Ok(v) == CASE v[1] = "num" -> v[2] \in {-1, 1} /\ v[3] >= 0 /\ v[4] \in Pow2
           [] v[1] = "a" -> \A i \in 1..Len(v[3]) : Ok(v[3][i])
           [] v[1] = "o" -> Len(v[3]) = Len(v[4])
           [] OTHER -> v[1] \in {"u", "n", "b", "s", "nan", "inf", "?"}
Kinds == \A i \in 1..Len(stk) : Ok(stk[i].v)
\* strict equality implies loose equality; both are symmetric
EqOk == Len(stk) = 2 /\ ~Bad(stk) =>
   LET a == stk[1].v  b == stk[2].v IN
   /\ StrictEq(a, b) = StrictEq(b, a) /\ LooseEq(a, b) = LooseEq(b, a)
   /\ StrictEq(a, b) => LooseEq(a, b) \in {B(TRUE), Q}

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Show(_)
RECURSIVE ShowAll(_)
ShowAll(e) == IF e = <<>> THEN "" ELSE Show(Head(e)) \o (IF Len(e) > 1 THEN ";" ELSE "") \o ShowAll(Tail(e))
Show(v) == CASE v[1] \in {"u", "n"} -> "nil" [] v[1] = "b" -> IF v[2] THEN "true" ELSE "false"
             [] v[1] = "s" -> "'" \o Cat(v[2]) \o "'"
             [] v[1] = "num" -> (IF v[2] = -1 THEN "-" ELSE "") \o ToString(v[3]) \o "/" \o ToString(v[4])
             [] v[1] = "nan" -> "NaN" [] v[1] = "inf" -> IF v[2] = 1 THEN "Inf" ELSE "-Inf"
             [] v[1] = "a" -> "[" \o ShowAll(v[3]) \o "]"
             [] v[1] = "o" -> "{" \o ShowAll(v[4]) \o "}"
             [] OTHER -> "?"
Emit == Len(stk) = 1 /\ n > 0 /\ stk[1].v # Q =>
          PrintT(<<"V", stk[1].t, Show(stk[1].v), IF Truthy(stk[1].v) THEN "T" ELSE "F">>)
=============================================================================
