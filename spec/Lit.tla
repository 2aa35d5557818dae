-------------------------------- MODULE Lit --------------------------------
(***************************************************************************)
(* The literals of ECMAScript, read character by character.  A state is a  *)
(* text begun with a literal, the state of the automaton that reads it and *)
(* the value so far.  Characters are letters; BS is a backslash, SQ DQ BT  *)
(* are quotes, LF CR LS PS line terminators, E2 and E4 characters of two   *)
(* and four bytes of UTF-8, FD the replacement character, HOLE is an       *)
(* interpolation of a template.  In values #N is the code unit or point N. *)
(* Verdicts of a text: ok (a literal), loose (a literal of sloppy code     *)
(* only), free (a literal in sloppy code, strict code is not specified),   *)
(* bad (no program), skip (more than a literal: not specified here).       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Kind,     \* num str tpl re
          Alphabet, K,
          Live      \* TRUE: texts which cannot become literals are not continued

VARIABLES text, s
vars == <<text, s>>

Oct == {"0", "1", "2", "3", "4", "5", "6", "7"}
Dec == Oct \cup {"8", "9"}
HexV == [x \in Dec \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"} |->
          CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4 [] x = "5" -> 5 [] x = "6" -> 6
            [] x = "7" -> 7 [] x = "8" -> 8 [] x = "9" -> 9 [] x \in {"a", "A"} -> 10 [] x \in {"b", "B"} -> 11
            [] x \in {"c", "C"} -> 12 [] x \in {"d", "D"} -> 13 [] x \in {"e", "E"} -> 14 [] OTHER -> 15]
Hex == DOMAIN HexV
LT == {"LF", "CR", "LS", "PS"}
Letter == {"a", "b", "c", "d", "e", "f", "g", "n", "o", "r", "t", "u", "v", "x", "A", "B", "C", "D", "E", "F", "O", "X", "E2"}
IdPart == Letter \cup Dec \cup {"_"}

\* q automaton state, digs digits (of the base rad), fr how many of them are after the point, es and ed sign and digits of
\* the exponent, big a bigint, leg loose/free, v characters (code units) of the current string, vs finished pieces,
\* acc and cnt of the escape being read, raw text of the current piece, ill the piece has an illegal escape
S0 == [q |-> "start", rad |-> 10, digs |-> "", fr |-> 0, es |-> "", ed |-> "", big |-> FALSE, leg |-> "ok",
       v |-> <<>>, vs |-> <<>>, acc |-> 0, cnt |-> 0, raw |-> <<>>, ill |-> FALSE, par |-> 0, fl |-> "", uerr |-> FALSE, uesc |-> FALSE, dx |-> 0]
Go(q) == [s EXCEPT !.q = q]
Dead == Go("dead")
Skip == Go("skip")
Dig(q, x) == [s EXCEPT !.q = q, !.digs = @ \o x]
Frac(x) == [s EXCEPT !.q = "frac", !.digs = @ \o x, !.fr = @ + 1]

(* ------------------------------ numbers ---------------------------------- *)
Tail1(x) == \* after a complete number
  IF x \in IdPart THEN Dead ELSE Skip
NumStep(x) ==
  LET q == s.q IN
  CASE q = "start" -> (IF x = "0" THEN Dig("zero", x) ELSE IF x \in Dec THEN Dig("int", x) ELSE IF x = "." THEN Go("dot") ELSE Skip)
    [] q = "zero" -> (CASE x \in {"x", "X"} -> [Go("hex0") EXCEPT !.rad = 16, !.digs = ""]
                       [] x \in {"b", "B"} -> [Go("bin0") EXCEPT !.rad = 2, !.digs = ""]
                       [] x \in {"o", "O"} -> [Go("oct0") EXCEPT !.rad = 8, !.digs = ""]
                       [] x = "." -> Go("fracA") [] x \in {"e", "E"} -> Go("exp0") [] x = "n" -> [Go("big") EXCEPT !.big = TRUE]
                       [] x \in Oct -> [Dig("loct", x) EXCEPT !.rad = 8, !.leg = "loose"]
                       [] x \in {"8", "9"} -> [Dig("ldec", x) EXCEPT !.leg = "loose"]
                       [] OTHER -> Tail1(x))
    [] q = "int" -> (CASE x \in Dec -> Dig("int", x) [] x = "_" -> Go("intS") [] x = "." -> Go("fracA") [] x \in {"e", "E"} -> Go("exp0")
                      [] x = "n" -> [Go("big") EXCEPT !.big = TRUE] [] OTHER -> Tail1(x))
    [] q = "intS" -> (IF x \in Dec THEN Dig("int", x) ELSE Dead)
    [] q = "dot" -> (IF x \in Dec THEN Frac(x) ELSE Dead)
    [] q = "fracA" -> (CASE x \in Dec -> Frac(x) [] x \in {"e", "E"} -> Go("exp0") [] OTHER -> Tail1(x))
    [] q = "frac" -> (CASE x \in Dec -> Frac(x) [] x = "_" -> Go("fracS") [] x \in {"e", "E"} -> Go("exp0") [] OTHER -> Tail1(x))
    [] q = "fracS" -> (IF x \in Dec THEN Frac(x) ELSE Dead)
    [] q = "exp0" -> (CASE x \in Dec -> [s EXCEPT !.q = "exp", !.ed = @ \o x] [] x \in {"+", "-"} -> [s EXCEPT !.q = "expS0", !.es = x] [] OTHER -> Dead)
    [] q = "expS0" -> (IF x \in Dec THEN [s EXCEPT !.q = "exp", !.ed = @ \o x] ELSE Dead)
    [] q = "exp" -> (CASE x \in Dec -> [s EXCEPT !.ed = @ \o x] [] x = "_" -> Go("expS") [] OTHER -> Tail1(x))
    [] q = "expS" -> (IF x \in Dec THEN [s EXCEPT !.q = "exp", !.ed = @ \o x] ELSE Dead)
    [] q \in {"hex0", "hexS"} -> (IF x \in Hex THEN Dig("hex", x) ELSE Dead)
    [] q \in {"bin0", "binS"} -> (IF x \in {"0", "1"} THEN Dig("bin", x) ELSE Dead)
    [] q \in {"oct0", "octS"} -> (IF x \in Oct THEN Dig("oct", x) ELSE Dead)
    [] q = "hex" -> (CASE x \in Hex -> Dig("hex", x) [] x = "_" -> Go("hexS") [] x = "n" -> [Go("big") EXCEPT !.big = TRUE] [] OTHER -> Tail1(x))
    [] q = "bin" -> (CASE x \in {"0", "1"} -> Dig("bin", x) [] x = "_" -> Go("binS") [] x = "n" -> [Go("big") EXCEPT !.big = TRUE] [] OTHER -> Tail1(x))
    [] q = "oct" -> (CASE x \in Oct -> Dig("oct", x) [] x = "_" -> Go("octS") [] x = "n" -> [Go("big") EXCEPT !.big = TRUE] [] OTHER -> Tail1(x))
    [] q = "loct" -> (CASE x \in Oct -> Dig("loct", x) [] x \in {"8", "9"} -> [Dig("ldec", x) EXCEPT !.rad = 10] [] OTHER -> Tail1(x))
    [] q = "ldec" -> (CASE x \in Dec -> Dig("ldec", x) [] x = "." -> Go("fracA") [] x \in {"e", "E"} -> Go("exp0") [] OTHER -> Tail1(x))
    [] q = "big" -> Tail1(x)
    [] OTHER -> s
NumEnd == IF s.q \in {"zero", "int", "fracA", "frac", "exp", "hex", "bin", "oct", "loct", "ldec", "big"} THEN s.leg
          ELSE IF s.q \in {"skip", "start"} THEN "skip" ELSE "bad"

(* ------------------------- strings and templates ------------------------- *)
Code(x) == CASE x = "LF" -> 10 [] x = "CR" -> 13 [] x = "LS" -> 8232 [] x = "PS" -> 8233
             [] x = "b" -> 8 [] x = "t" -> 9 [] x = "n" -> 10 [] x = "v" -> 11 [] x = "f" -> 12 [] x = "r" -> 13 [] OTHER -> 0
Esc1 == {"b", "t", "n", "v", "f", "r"}
\* characters of the value: numbers (code units or points) or letters that stand for themselves
Add(st, q, y) == [st EXCEPT !.q = q, !.v = Append(@, y)]
Num(y) == "#" \o ToString(y)
Tpl == Kind = "tpl"
\* an ordinary character (or the end) outside of an escape; st is the state so far
Body(st, x) ==
  CASE Tpl /\ x = "BT" -> [st EXCEPT !.q = "done", !.vs = Append(@, <<st.raw, st.v, st.ill>>)]
    [] Tpl /\ x = "HOLE" -> [st EXCEPT !.q = "body", !.vs = Append(@, <<st.raw, st.v, st.ill>>), !.v = <<>>, !.raw = <<>>, !.ill = FALSE]
    [] Tpl /\ x = "CR" -> Add(st, "cr", "#10")
    [] ~Tpl /\ x = text[1] -> [st EXCEPT !.q = "done"]
    [] ~Tpl /\ x \in {"LF", "CR"} -> [st EXCEPT !.q = "dead"]
    [] x = "BS" -> [st EXCEPT !.q = "esc"]
    [] Tpl /\ x = "$" -> Add(st, "dollar", x)
    [] x \in LT -> Add(st, "body", Num(Code(x)))
    [] OTHER -> Add(st, "body", x)
\* an escape that is not one: an error in strings, in templates an error unless they are tagged; x is not part of it
Ill(x) == IF Tpl THEN Body([s EXCEPT !.ill = TRUE, !.acc = 0, !.cnt = 0], x) ELSE Dead
Add16(x) == s.acc * 16 + HexV[x]
StrStep(x) ==
  LET q == s.q IN
  CASE q = "start" -> (IF (Tpl /\ x = "BT") \/ (~Tpl /\ x \in {"SQ", "DQ"}) THEN Go("body") ELSE Skip)
    [] q = "body" -> Body(s, x)
    [] q = "dollar" -> (IF x = "{" THEN Skip ELSE Body(s, x))
    [] q = "cr" -> (IF x = "LF" THEN Go("body") ELSE Body(s, x))
    [] q = "esc" ->
         (CASE x = "LF" -> Go("body") [] x = "CR" -> Go("contcr") [] x \in {"LS", "PS"} -> Go("body")
           [] x \in Esc1 -> Add(s, "body", Num(Code(x)))
           [] x = "x" -> [s EXCEPT !.q = "x", !.acc = 0, !.cnt = 0]
           [] x = "u" -> [s EXCEPT !.q = "u", !.acc = 0, !.cnt = 0]
           [] x = "0" -> [s EXCEPT !.q = "zero", !.acc = 0, !.cnt = 2]
           [] x \in Oct -> (IF Tpl THEN [s EXCEPT !.q = "body", !.ill = TRUE] ELSE [s EXCEPT !.q = "oct", !.acc = HexV[x], !.cnt = IF HexV[x] <= 3 THEN 2 ELSE 1, !.leg = "loose"])
           [] x \in {"8", "9"} -> (IF Tpl THEN [s EXCEPT !.q = "body", !.ill = TRUE] ELSE [Add(s, "body", x) EXCEPT !.leg = IF @ = "ok" THEN "free" ELSE @])
           [] x = "HOLE" -> Skip
           [] OTHER -> Add(s, "body", x))
    [] q = "contcr" -> (IF x = "LF" THEN Go("body") ELSE Body(s, x))
    [] q = "zero" -> (CASE Tpl /\ x \in Dec -> Body([s EXCEPT !.ill = TRUE, !.cnt = 0], x)
                       [] ~Tpl /\ x \in {"8", "9"} -> Body([Add(s, "body", "#0") EXCEPT !.leg = "loose"], x)
                       [] ~Tpl /\ x \in Oct -> [s EXCEPT !.q = "oct", !.acc = HexV[x], !.cnt = 1, !.leg = "loose"]
                       [] OTHER -> Body(Add(s, "body", "#0"), x))
    [] q = "oct" -> (IF s.cnt > 0 /\ x \in Oct THEN [s EXCEPT !.acc = @ * 8 + HexV[x], !.cnt = @ - 1]
                     ELSE Body([Add(s, "body", Num(s.acc)) EXCEPT !.cnt = 0], x))
    [] q = "x" -> (IF x \in Hex THEN (IF s.cnt = 1 THEN Add(s, "body", Num(Add16(x))) ELSE [s EXCEPT !.acc = Add16(x), !.cnt = 1]) ELSE Ill(x))
    [] q = "u" -> (IF x = "{" THEN Go("u{") ELSE IF x \in Hex THEN [s EXCEPT !.q = "u4", !.acc = Add16(x), !.cnt = 1] ELSE Ill(x))
    [] q = "u4" -> (IF x \in Hex THEN (IF s.cnt = 3 THEN Add(s, "body", Num(Add16(x))) ELSE [s EXCEPT !.acc = Add16(x), !.cnt = @ + 1]) ELSE Ill(x))
    [] q = "u{" -> (IF x \in Hex THEN (IF Add16(x) > 1114111 THEN (IF Tpl THEN [s EXCEPT !.q = "body", !.ill = TRUE] ELSE Dead) ELSE [s EXCEPT !.acc = Add16(x), !.cnt = 1])
                    ELSE IF x = "}" /\ s.cnt = 1 THEN Add(s, "body", Num(s.acc)) ELSE Ill(x))
    [] q = "done" -> Skip
    [] OTHER -> s
\* the raw text of a piece: what was read since it began
RawStep(st, x) == IF ~Tpl \/ s.q = "start" \/ st.q = "done" \/ st.vs # s.vs THEN st ELSE [st EXCEPT !.raw = Append(@, x)]
StrEnd == IF s.q = "done" THEN s.leg ELSE IF s.q \in {"skip", "start"} THEN "skip" ELSE "bad"

(* -------------------------- regular expressions -------------------------- *)
\* the pattern is read as far as its end and its groups and classes need; with the flag u unicode escapes are checked and
\* other patterns are not specified
ReChar(st, x) ==
  CASE x \in LT -> [st EXCEPT !.q = "dead"]
    [] x = "BS" -> [st EXCEPT !.raw = Append(@, x), !.cnt = IF st.q = "class" THEN 1 ELSE 0, !.q = "esc"]
    [] st.q = "class" -> [st EXCEPT !.raw = Append(@, x), !.q = IF x = "]" THEN "body" ELSE "class"]
    [] x = "/" -> (IF st.par > 0 THEN [st EXCEPT !.q = "dead"] ELSE [st EXCEPT !.q = "flags"])
    [] x = "[" -> [st EXCEPT !.raw = Append(@, x), !.q = "class"]
    [] x = "(" -> [st EXCEPT !.raw = Append(@, x), !.par = @ + 1]
    [] x = ")" -> (IF st.par = 0 THEN [st EXCEPT !.q = "dead"] ELSE [st EXCEPT !.raw = Append(@, x), !.par = @ - 1])
    [] OTHER -> [st EXCEPT !.raw = Append(@, x)]
Back(st) == [st EXCEPT !.q = IF st.cnt = 1 THEN "class" ELSE "body"]
ReStep(x) ==
  LET q == s.q IN
  CASE q = "start" -> (IF x = "/" THEN Go("first") ELSE Skip)
    [] q = "first" -> (IF x \in {"*", "/"} THEN Skip ELSE ReChar([s EXCEPT !.q = "body"], x))
    [] q \in {"body", "class"} -> ReChar(s, x)
    [] q = "esc" -> (IF x \in LT THEN Dead ELSE IF x = "u" THEN [s EXCEPT !.raw = Append(@, x), !.q = "u", !.acc = 0] ELSE [Back(s) EXCEPT !.raw = Append(@, x)])
    [] q = "u" -> (CASE x = "{" -> [s EXCEPT !.raw = Append(@, x), !.q = "u{", !.uesc = TRUE, !.acc = 0]
                    [] x \in Hex -> [s EXCEPT !.raw = Append(@, x), !.q = "u4", !.acc = 1]
                    [] OTHER -> ReChar([Back(s) EXCEPT !.uerr = TRUE], x))
    [] q = "u4" -> (IF x \in Hex THEN (IF s.acc = 3 THEN [Back(s) EXCEPT !.raw = Append(@, x)] ELSE [s EXCEPT !.raw = Append(@, x), !.acc = @ + 1])
                    ELSE ReChar([Back(s) EXCEPT !.uerr = TRUE], x))
    [] q = "u{" -> (IF x \in Hex THEN [s EXCEPT !.raw = Append(@, x), !.acc = @ + 1]
                    ELSE IF x = "}" /\ s.acc > 0 THEN [Back(s) EXCEPT !.raw = Append(@, x)] ELSE ReChar([Back(s) EXCEPT !.uerr = TRUE], x))
    [] q = "flags" -> (IF x \in {"g", "u", "a", "d", "i", "m", "s", "y", "x"} THEN [s EXCEPT !.fl = @ \o x, !.vs = Append(@, x)] ELSE Skip)
    [] OTHER -> s
Flags == {s.vs[i] : i \in 1..Len(s.vs)}
HasU == "u" \in Flags
PlainRe == \A i \in 1..Len(s.raw) : s.raw[i] \notin {"]", "{", "}", "["}
EscOk == \A i \in 1..Len(s.raw) : s.raw[i] = "BS" => i < Len(s.raw) /\ s.raw[i + 1] \in {"u", "/", "n"}
ReEnd == IF s.q \in {"skip", "start", "first"} THEN "skip"
         ELSE IF s.q # "flags" THEN "bad"
         ELSE IF ~HasU THEN "ok" ELSE IF s.uerr THEN "bad" ELSE IF PlainRe /\ EscOk THEN "ok" ELSE "skip"
FlagsOk == Flags \subseteq {"d", "g", "i", "m", "s", "u", "y"} /\ \A i, j \in 1..Len(s.vs) : s.vs[i] = s.vs[j] => i = j

(* -------------------------------------------------------------------------- *)
Init == text = <<>> /\ s = S0
Step(x) == /\ Len(text) < K /\ s.q # "skip"
           /\ (s.q = "dead" => ~Live /\ s.dx < 2)
           /\ text' = Append(text, x)
           /\ s' = IF s.q = "dead" THEN [s EXCEPT !.dx = @ + 1]
                   ELSE CASE Kind = "num" -> NumStep(x) [] Kind \in {"str", "tpl"} -> RawStep(StrStep(x), x) [] OTHER -> ReStep(x)
           /\ (Live => s'.q \notin {"dead", "skip"})
Next == \E x \in Alphabet : Step(x)
Spec == Init /\ [][Next]_vars
Verdict == CASE Kind = "num" -> NumEnd [] Kind \in {"str", "tpl"} -> StrEnd [] OTHER -> ReEnd

(* ---- properties of the specification ---- *)
\* a text which is no literal stays none; digits and fraction agree
TypeOk == s.fr <= 30 /\ (Kind = "num" /\ Verdict \in {"ok", "loose"} => s.rad \in {2, 8, 10, 16} /\ (s.big => s.fr = 0 /\ s.ed = ""))
\* nothing of a template is lost
RECURSIVE SumLen(_)
SumLen(p) == IF p = <<>> THEN 0 ELSE Len(Head(p)[1]) + SumLen(Tail(p))
TplRaw == Kind = "tpl" /\ s.q = "done" => SumLen(s.vs) + (Len(s.vs) - 1) + 2 = Len(text)

RECURSIVE Cat(_), CatP(_)
Cat(w) == IF w = <<>> THEN "" ELSE Head(w) \o " " \o Cat(Tail(w))
CatP(w) == IF w = <<>> THEN "" ELSE Cat(Head(w)[1]) \o ";" \o Cat(Head(w)[2]) \o ";" \o ToString(Head(w)[3]) \o "|" \o CatP(Tail(w))
Val == CASE Kind = "num" -> ToString(s.rad) \o ";" \o s.digs \o ";" \o ToString(s.fr) \o ";" \o s.es \o s.ed \o ";" \o ToString(s.big)
         [] Kind = "str" -> Cat(s.v)
         [] Kind = "tpl" -> CatP(s.vs)
         [] OTHER -> Cat(s.raw) \o ";" \o s.fl \o ";" \o ToString(FlagsOk)
Emit == Len(text) > 0 /\ Verdict # "skip" => PrintT(<<"V", Cat(text), Verdict, IF Verdict = "bad" THEN "" ELSE Val>>)
=============================================================================
