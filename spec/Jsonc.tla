------------------------------- MODULE Jsonc -------------------------------
(***************************************************************************)
(* JSON with comments, read character by character.  `out` is what has to  *)
(* be left after the comments are removed: the characters outside of       *)
(* comments, W where a comment was (some white space), ~ for a comma that  *)
(* only white space separates from a closing bracket (a space), ? for a    *)
(* comma that comments separate from one (either).                         *)
(* Letters: q quote, b backslash, n line feed, r carriage return, s space, *)
(* t tab; the others stand for themselves or for text given by the replay. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Letters, K

VARIABLES word, mode, out
vars == <<word, mode, out>>

White == {"n", "r", "s", "t"}
Init == word = <<>> /\ mode = "text" /\ out = <<>>

\* a closing bracket: the comma before it, if there is one
RECURSIVE Back(_, _, _)
Back(o, i, gap) == IF i = 0 THEN o
                   ELSE IF o[i] = "," THEN [o EXCEPT ![i] = IF gap THEN "?" ELSE "~"]
                   ELSE IF o[i] = "W" THEN Back(o, i - 1, TRUE)
                   ELSE IF o[i] \in White THEN Back(o, i - 1, gap)
                   ELSE o

Text(o, x) == \* x outside of comments and strings
  CASE x = "q" -> <<"str", Append(o, x)>>
    [] x = "/" -> <<"slash", o>>
    [] x \in {"}", "]"} -> <<"text", Append(Back(o, Len(o), FALSE), x)>>
    [] OTHER -> <<"text", Append(o, x)>>

\* commas in strings are written as k: they are no separators
Str(x) == IF x = "," THEN "k" ELSE x

After(x) ==
  CASE mode = "text" -> Text(out, x)
    [] mode = "slash" -> IF x = "/" THEN <<"line", Append(out, "W")>>
                         ELSE IF x = "*" THEN <<"block", Append(out, "W")>>
                         ELSE Text(Append(out, "/"), x)
    [] mode = "str" -> <<IF x = "q" THEN "text" ELSE IF x = "b" THEN "esc" ELSE "str", Append(out, Str(x))>>
    [] mode = "esc" -> <<"str", Append(out, Str(x))>>
    [] mode = "line" -> <<IF x \in {"n", "r"} THEN "text" ELSE "line", out>>
    [] mode = "block" -> <<IF x = "*" THEN "star" ELSE "block", out>>
    [] mode = "star" -> <<IF x = "/" THEN "text" ELSE IF x = "*" THEN "star" ELSE "block", out>>

Step(x) == /\ Len(word) < K /\ word' = Append(word, x) /\ mode' = After(x)[1] /\ out' = After(x)[2]
Next == \E x \in Letters : Step(x)
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))

(* ---- properties of the specification ---- *)
\* nothing is invented: without W, ~, ? and k the characters are those of the word, in order
RECURSIVE Sub(_, _)
Sub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
             ELSE IF Head(a) = "W" THEN Sub(Tail(a), b)
             ELSE IF Head(a) = Head(b) \/ (Head(b) = "," /\ Head(a) \in {"~", "?", "k"}) THEN Sub(Tail(a), Tail(b))
             ELSE Sub(a, Tail(b))
InOrder == Sub(out, word)
\* without the character / there are no comments, and only commas before closing brackets change
NoComments == (\A i \in 1..Len(word) : word[i] # "/") => Len(out) = Len(word)

Emit == PrintT(<<"V", Cat(word) \o " " \o Cat(out) \o (IF mode = "slash" THEN "/" ELSE "") \o " " \o mode>>)
EmitEnd == Len(word) = K => Emit
=============================================================================
