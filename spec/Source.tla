------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* The reader of source texts (span.Source): a cursor over a sequence of   *)
(* characters with a stack of saved cursors.  Characters are named:        *)
(*  a letter, s space, t tab, n LF, r CR, l U+2028, b U+00A0, e U+0085     *)
(*  (white space of two bytes), d é, o a character of four bytes, f U+FFFD,*)
(*  m U+FEFF, x a byte that is not UTF-8 (read as one character)           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Letters, Ifs, NT, NO  \* letters, arguments of AdvanceIf, length of texts and of histories

VARIABLES text, idx, met, stk, hist, ready
vars == <<text, idx, met, stk, hist, ready>>

Width(c) == CASE c \in {"b", "e", "d"} -> 2 [] c \in {"l", "f", "m"} -> 3 [] c = "o" -> 4 [] OTHER -> 1
IsSpace(c) == c \in {"s", "t", "n", "r", "l", "b", "e"}
IsTerm(c) == c \in {"n", "r", "l"}

At(i) == IF i <= Len(text) THEN text[i] ELSE "$"  \* $: the end
RECURSIVE Bytes(_)
Bytes(i) == IF i <= 1 THEN 0 ELSE Bytes(i - 1) + Width(text[i - 1])  \* offset of character i
\* the cursor after reading at i: CR LF is read as one
Adv(i) == IF i > Len(text) THEN i ELSE IF At(i) = "r" /\ At(i + 1) = "n" THEN i + 2 ELSE i + 1
Got(i) == IF At(i) = "r" THEN "n" ELSE At(i)
RECURSIVE Skip(_)
Skip(i) == IF IsSpace(At(i)) THEN Skip(Adv(i)) ELSE i
Met(i) == \E k \in i..(Skip(i) - 1) : IsTerm(text[k])

\* line (from 1) and column (from 0) of the place before character i
Breaks(i) == {k \in 1..(i - 1) : At(k) = "n" \/ (At(k) = "r" /\ At(k + 1) # "n")}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
LineOf(i) == 1 + Len(SelectSeq([k \in 1..(i - 1) |-> k], LAMBDA k : k \in Breaks(i)))
ColOf(i) == (i - 1) - (IF Breaks(i) = {} THEN 0 ELSE Max(Breaks(i)))

\* what is seen at a cursor
Seen(i, m, n) == At(i) \o (IF i > Len(text) THEN "$" ELSE At(i + 1)) \o ToString(Bytes(i)) \o "." \o ToString(i - 1) \o "."
                 \o (IF m THEN "T" ELSE "F") \o ToString(LineOf(i)) \o "." \o ToString(ColOf(i))

Init == /\ text \in UNION {[1..n -> Letters] : n \in 0..NT} /\ idx = 1 /\ met = FALSE /\ stk = <<>> /\ hist = <<>> /\ ready = TRUE

Do(op, i, m, st, r) == /\ Len(hist) < NO
                       /\ idx' = i /\ met' = m /\ stk' = st
                       /\ hist' = Append(hist, op \o "=" \o r \o "|" \o Seen(i, m, st))
                       /\ ready /\ UNCHANGED <<text, ready>>
Read == Do("R", Adv(idx), met, stk, Got(idx))
Same(a, b) == a = b \/ {a, b} \subseteq {"f", "x"}  \* a bad byte is read as U+FFFD
If(c) == Do("I" \o c, IF Same(At(idx), c) THEN Adv(idx) ELSE idx, met, stk, IF Same(At(idx), c) THEN "T" ELSE "F")
Space == Do("S", Skip(idx), Met(idx), stk, "")
Push == Do("P", idx, met, Append(stk, <<idx, met>>), "")
Pop == stk # <<>> /\ Do("Q", stk[Len(stk)][1], stk[Len(stk)][2], SubSeq(stk, 1, Len(stk) - 1), "")
Discard == stk # <<>> /\ Do("D", idx, met, SubSeq(stk, 1, Len(stk) - 1), "")

Next == Read \/ Space \/ Push \/ Pop \/ Discard \/ \E c \in Ifs : If(c)
Spec == Init /\ [][Next]_vars

\* random texts for the simulation
RECURSIVE Rnd(_)
Rnd(n) == IF n = 0 THEN <<>> ELSE Append(Rnd(n - 1), RandomElement(Letters))
InitR == text = <<>> /\ idx = 1 /\ met = FALSE /\ stk = <<>> /\ hist = <<>> /\ ready = FALSE
Type == ~ready /\ ready' = TRUE /\ text' = Rnd(RandomElement(0..NT)) /\ UNCHANGED <<idx, met, stk, hist>>
SpecR == InitR /\ [][Type \/ Next]_vars

(* ---- properties of the specification ---- *)
InText == idx \in 1..(Len(text) + 1)
NotInside == \* a cursor is never between CR and LF, unless the text starts there
  idx > 1 /\ idx <= Len(text) => ~(At(idx - 1) = "r" /\ At(idx) = "n")
Ends == Skip(idx) = idx \/ Skip(idx) > idx

RECURSIVE Cat(_, _)
Cat(s, sep) == IF s = <<>> THEN "" ELSE Head(s) \o (IF Len(s) = 1 THEN "" ELSE sep) \o Cat(Tail(s), sep)
Emit == ready /\ Len(hist) = NO => PrintT(<<"H", "w" \o Cat(text, ""), Cat(hist, " ")>>)
EmitPos == ready => PrintT(<<"L", "w" \o Cat(text, ""), Cat([i \in 1..(Len(text) + 1) |-> ToString(Bytes(i)) \o "." \o ToString(LineOf(i)) \o "." \o ToString(ColOf(i))], " ")>>)
=============================================================================
