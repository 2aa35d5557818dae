------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The derivation machine.  A state is a leftmost sentential form of the   *)
(* ECMAScript grammar (module Ecma): `out` is the part already written     *)
(* (tokens and tree marks), `stk` the symbols still to be derived.  One     *)
(* step replaces the leftmost nonterminal by one of its productions and    *)
(* then writes terminals and marks up to the next nonterminal.  Static     *)
(* semantics (look-ahead restrictions, semicolon insertion, scopes, ...)    *)
(* are part of the state and prune derivations the language excludes.      *)
(*                                                                         *)
(* The reachable finished states are exactly the programs of the fragment  *)
(* (all words over Alphabet of at most K letters that ECMAScript accepts), *)
(* each with its syntax tree.                                              *)
(***************************************************************************)
EXTENDS Ecma, Randomization


VARIABLES stk, out, g, sc, res, n, nt, yl, done

vars == <<stk, out, g, sc, res, n, nt, yl, done>>

\* random derivations consider this many productions of a nonterminal at a time
BR == 2

MaxLetter == LET s == {Len(l) : l \in Letters} IN CHOOSE x \in s : \A y \in s : y <= x

RECURSIVE SumY(_, _)
SumY(p, i) == IF i > Len(p) THEN 0 ELSE p[i].y + SumY(p, i + 1)

(* --- scopes: a stack of frames, innermost last --------------------------- *)
\* lex lexical names, var variables (and functions of a function or script), par parameters, fnl block functions of sloppy code,
\* exp exported names, ref names exported from here, pd declared and pu used private names
Frame(kind) == [kind |-> kind, lex |-> {}, var |-> {}, par |-> {}, fnl |-> {}, exp |-> {}, ref |-> {}, pd |-> {}, pu |-> {}]
RECURSIVE ClsFrom(_, _)
ClsFrom(f, i) == IF i = 0 THEN 0 ELSE IF f[i].kind = "cls" THEN i ELSE ClsFrom(f, i - 1)
PrivKinds == {"priv" \o k \o st : k \in {"M", "P", "G", "S", "F"}, st \in {"true", "false"}}
\* what a second private declaration may follow: a getter of the same staticness a setter, and the reverse
PrivPair(d) == CASE d = "privGtrue" -> {"privStrue"} [] d = "privStrue" -> {"privGtrue"}
                 [] d = "privGfalse" -> {"privSfalse"} [] d = "privSfalse" -> {"privGfalse"} [] OTHER -> {}
RECURSIVE DeclOk(_, _, _), DeclDo(_, _, _)
XKind == [xlex |-> "lex", xvar |-> "var", xfn |-> "fns", xfns |-> "fns"]

\* frames a `var` passes through: from the innermost out to the nearest function frame
RECURSIVE VarFrom(_, _)
VarFrom(f, i) == IF f[i].kind \in {"fn", "top", "mod"} THEN i ELSE VarFrom(f, i - 1)

DeclOk(f, d, x) ==
  LET z == Len(f) IN
  CASE d = "none"  -> TRUE
    [] d \in {"lex"} -> x \notin (f[z].lex \cup f[z].var \cup f[z].par \cup f[z].fnl)
    [] d = "var"   -> \A i \in VarFrom(f, z)..z :
                         /\ x \notin f[i].lex
                         /\ (f[i].kind \notin {"fn", "top"} => x \notin f[i].fnl)
                         /\ (f[i].kind = "catchp" => x \notin f[i].par)
    [] d = "fn"    -> \* function declaration, sloppy code
                      IF f[z].kind \in {"fn", "top"} THEN x \notin f[z].lex
                      ELSE x \notin (f[z].lex \cup f[z].var \cup f[z].par)
    [] d = "fns"   -> \* function declaration, strict code, or any async/generator function
                      IF f[z].kind \in {"fn", "top"} THEN x \notin f[z].lex
                      ELSE x \notin (f[z].lex \cup f[z].var \cup f[z].par \cup f[z].fnl)
    [] d = "par"   -> TRUE
    [] d = "upar"  -> x \notin f[z].par
    [] d = "exp"   -> x \notin f[1].exp
    [] d = "expboth" -> x \notin f[1].exp
    [] d \in DOMAIN XKind -> DeclOk(f, XKind[d], x) /\ x \notin f[1].exp
    [] d = "ctor"  -> "ctor" \notin f[z].pd
    [] d = "pref"  -> ClsFrom(f, z) > 0
    [] d \in PrivKinds -> LET e == {p \in f[ClsFrom(f, z)].pd : p \in PrivKinds} IN e = {} \/ (Cardinality(e) = 1 /\ e \subseteq PrivPair(d))
    [] OTHER -> TRUE

DeclDo(f, d, x) ==
  LET z == Len(f) IN
  CASE d = "none" -> f
    [] d = "lex"  -> [f EXCEPT ![z].lex = @ \cup {x}]
    [] d = "var"  -> LET v == VarFrom(f, z) IN
                     [i \in 1..z |-> IF i >= v THEN [f[i] EXCEPT !.var = @ \cup {x}] ELSE f[i]]
    [] d \in {"fn", "fns"} ->
                     IF f[z].kind \in {"fn", "top"} THEN [f EXCEPT ![z].var = @ \cup {x}]
                     ELSE IF d = "fn" THEN [f EXCEPT ![z].fnl = @ \cup {x}]
                     ELSE [f EXCEPT ![z].lex = @ \cup {x}]
    [] d = "exp" -> [f EXCEPT ![1].exp = @ \cup {x}]
    [] d = "expref" -> [f EXCEPT ![1].ref = @ \cup {x}]
    [] d = "expboth" -> [f EXCEPT ![1].exp = @ \cup {x}, ![1].ref = @ \cup {x}]
    [] d \in DOMAIN XKind -> LET h == DeclDo(f, XKind[d], x) IN [h EXCEPT ![1].exp = @ \cup {x}]
    [] d = "ctor" -> [f EXCEPT ![z].pd = @ \cup {"ctor"}]
    [] d = "pref" -> [f EXCEPT ![ClsFrom(f, z)].pu = @ \cup {x}]
    [] d \in PrivKinds -> [f EXCEPT ![ClsFrom(f, z)].pd = @ \cup {d}]
    [] d \in {"par", "upar"} -> [f EXCEPT ![z].par = @ \cup {x}]
    [] OTHER -> f

\* leaving a scope: private names used in a class must be declared in it or in a class around it;
\* names exported from a module must be declared at its top
PopOk(f, what) ==
  LET z == Len(f) IN
  CASE what = "popcls" -> f[z].pu = {} \/ f[z].pd \cap PrivKinds # {} \/ ClsFrom(f, z - 1) > 0
    [] what = "popmod" -> f[z].ref \subseteq (f[z].lex \cup f[z].var \cup f[z].fnl)
    [] OTHER -> TRUE
PopDo(f, what) ==
  LET z == Len(f)
      h == SubSeq(f, 1, z - 1) IN
  IF what = "popcls" /\ f[z].pu # {} /\ f[z].pd \cap PrivKinds = {} THEN [h EXCEPT ![ClsFrom(f, z - 1)].pu = @ \cup f[z].pu] ELSE h

(* --- writing a token ------------------------------------------------------ *)
\* guards: look-ahead restrictions on the next token(s)
Continues == {"(", "[", "`", "+", "-", "/", "*", ",", ".", "?.", "?", "=", "+=", "=>", "in", "instanceof", ";",
              "**", "||", "&&", "??", "|", "^", "&", "==", "<", "<<", "%", ":"}
Names == PlainIds \cup {"eval", "arguments"}
GuardOk(gs, x) ==
  \A q \in gs :
    CASE q = "exprstmt" -> x \notin {"{", "function", "class"}
      [] q = "nolet["   -> x # "["
      [] q = "noletI"   -> x \notin ({"[", "{", "let", "yield", "await", "static"} \cup PlainIds)
      [] q = "delid0"   -> x \in {".", "[", "(", "`", "?."} \/ (x \in {"++", "--"} /\ "nl" \notin gs)
      [] q = "nodirend" -> x \in Continues \ {";"}
      [] q = "nofn"     -> x # "function" \/ "nl" \in gs
      [] q = "nobrace"  -> x # "{"
      [] q = "noof"     -> x # "of"
      [] q = "forof"    -> x # "let"
      [] q = "forawait" -> x # "let"
      [] q = "expdef"   -> x \notin {"function", "class"}
      [] q = "cont"     -> x \notin (IF "arrowend" \in gs THEN {",", ":", ";"}
                                      ELSE IF "postfix" \in gs THEN Continues \ {"(", "[", "`"} ELSE Continues)
      [] q = "field"    -> x \notin {"(", "=", ";"}
      [] q = "fieldget" -> x = "*"
      [] q = "no;"      -> x # ";"
      [] q = "must}"    -> x = "}"
      [] q = "mustend"  -> FALSE
      [] q = "else"     -> x # "else"
      [] OTHER -> TRUE
GuardNext(gs, x) ==
  UNION { CASE q \in {"sublet", "forexpr"} /\ x = "let" -> {"nolet["}
            [] q = "itemlet" /\ x = "let" -> {"noletI"}
            [] q = "del0" -> IF x = "(" THEN {"del1"} ELSE IF x \in Names THEN {"delid0"} ELSE {}
            [] q = "del1" -> IF x = "(" THEN {"del2"} ELSE IF x \in Names THEN {"delid1"} ELSE {}
            [] q = "del2" -> IF x \in Names THEN {"delid2"} ELSE {}
            [] q = "delid2" -> IF x = ")" THEN {"delid1"} ELSE {}
            [] q = "delid1" -> IF x = ")" THEN {"delid0"} ELSE {}
            [] q \in {"dir", "dirs"} -> IF x = "'use strict'" THEN {"nodirend"} ELSE IF x \in {"'s'", "OCTSTR"} THEN {"dirs"}
                                      ELSE IF q = "dirs" /\ x = ";" THEN {"dir"} ELSE {}
            [] q \in {"exprstmt", "expdef"} /\ x = "async" -> {"nofn"}
            [] q = "forof" /\ x = "async" -> {"noof"}
            [] OTHER -> {} : q \in gs }

\* letters: r is the rest of the current letter, j the number of letters begun
LetterStep(r, j, x) ==
  IF r # <<>> THEN IF Head(r) = x THEN {<<Tail(r), j>>} ELSE {}
  ELSE IF j < K THEN { <<Tail(l), j + 1>> : l \in {q \in Letters : Head(q) = x} } ELSE {}

HasNL == <<"NL">> \in Letters

\* y is the least number of tokens the stack yields
Fits(c) == /\ c.nt + c.y <= KT
           /\ c.y <= Len(c.res) + (K - c.n) * MaxLetter

(* A configuration while writing: record of all variables. *)
(* Write(c, w): the configurations reached by expanding and writing until one token has been written (w) and a
   nonterminal is leftmost again, or nothing is left. *)
RECURSIVE Write(_, _)
Write(c, w) ==
  IF c.stk = <<>> THEN {c}
  ELSE LET h == Head(c.stk)
           r == [c EXCEPT !.stk = Tail(@)]
       IN
       CASE h.k = "n" -> IF w THEN {c}
                         ELSE LET step(p) == [c EXCEPT !.stk = p \o Tail(c.stk), !.y = @ - h.y + SumY(p, 1)]
                                  ps == {q \in Prods(h) : (\A i \in 1..Len(q) : q[i].k \in {"t", "b"} => q[i].s \in Toks) /\ Fits(step(q))}
                              IN UNION { Write(step(p), FALSE) : p \in IF SIM /\ Cardinality(ps) > BR THEN RandomSubset(BR, ps) ELSE ps }
         [] h.k = "m" -> Write([r EXCEPT !.out = Append(@, h.s)], w)
         [] h.k = "g" -> Write([r EXCEPT !.g = @ \cup {h.s}, !.out = IF h.s = "nonl" THEN Append(@, "~") ELSE @], w)
         [] h.k = "s" -> \* scope operation
              IF h.s \in {"pop", "popcls", "popmod"} THEN (IF PopOk(c.sc, h.s) THEN Write([r EXCEPT !.sc = PopDo(@, h.s)], w) ELSE {})
              ELSE Write([r EXCEPT !.sc = Append(@, Frame(h.s))], w)
         [] h.k \in {"t", "b"} ->
              IF w THEN {c} ELSE
              LET r0 == c.g \ {"nonl", "mustnl"}
                  plain == IF "mustnl" \notin c.g /\ GuardOk(r0, h.s) /\ (h.k = "b" => DeclOk(c.sc, h.d, h.s)) THEN
                       UNION { Write([r EXCEPT !.out = Append(@, "'" \o h.s), !.g = GuardNext(r0, h.s),
                                       !.res = p[1], !.n = p[2], !.nt = @ + 1, !.y = @ - 1,
                                       !.sc = IF h.k = "b" THEN DeclDo(@, h.d, h.s) ELSE @], TRUE)
                               : p \in LetterStep(c.res, c.n, h.s) }
                     ELSE {}
                  withNl == IF HasNL /\ (SIM => "mustnl" \in c.g) /\ c.g \cap {"nonl", "nl", "mustend"} = {} /\ c.res = <<>> /\ c.n < K /\ c.nt > 0 THEN
                       Write([c EXCEPT !.out = Append(@, "'NL"), !.n = @ + 1, !.g = (@ \ {"mustnl"}) \cup {"nl"}], FALSE)
                     ELSE IF c.res # <<>> /\ Head(c.res) = "NL" /\ c.g \cap {"nonl", "nl", "mustend"} = {} THEN \* inside a letter
                       Write([c EXCEPT !.out = Append(@, "'NL"), !.res = Tail(@), !.g = (@ \ {"mustnl"}) \cup {"nl"}], FALSE)
                     ELSE {}
              IN plain \cup withNl

Conf == [stk |-> stk, out |-> out, g |-> g, sc |-> sc, res |-> res, n |-> n, nt |-> nt, y |-> yl]

Set(c) == /\ stk' = c.stk /\ out' = c.out /\ g' = c.g /\ sc' = c.sc
          /\ res' = c.res /\ n' = c.n /\ nt' = c.nt /\ yl' = c.y

Init == /\ stk = <<StartSym>> /\ out = <<>> /\ g = {} /\ sc = <<>> /\ res = <<>>
        /\ n = 0 /\ nt = 0 /\ yl = StartSym.y /\ done = FALSE

Expand == /\ ~done /\ stk # <<>>
          /\ \E c \in Write(Conf, FALSE) : Fits(c) /\ Set(c)
          /\ done' = FALSE

Finish == /\ ~done /\ stk = <<>> /\ res = <<>>
          /\ g \cap {"must}", "mustnl", "delid0", "nodirend"} = {}
          /\ done' = TRUE
          /\ UNCHANGED <<stk, out, g, sc, res, n, nt, yl>>

Next == Expand \/ Finish
Spec == Init /\ [][Next]_vars

ASSUME PrintT(<<"FRAG", ToString(Letters), Mode>>)
Emit == done => PrintT(<<"V", ToString(out)>>)
=============================================================================
