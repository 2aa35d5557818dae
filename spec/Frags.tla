------------------------------- MODULE Frags -------------------------------
(* The fragments: alphabets over which the language is compared exhaustively. *)
EXTENDS Sequences, Words
CONSTANTS FRAG, K, KT,
  SIM   \* TRUE: random simulation (a line break is written only where it is needed)

AllBin == {"||", "&&", "??", "|", "^", "&", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "instanceof", "in",
           "<<", ">>", ">>>", "+", "-", "*", "/", "%", "**"}
S(x) == {<<y>> : y \in x}   \* one-token letters
AssignToks == {"=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??="}
StrictFrags == {"allS", "wordsS", "redeclS", "names1S", "names2S", "ctxS", "fnS"}
ModuleFrags == {"allM", "wordsM", "imp", "imp2", "exp", "exp2", "exp3", "redeclM", "modctx", "names1M"}
Mode == IF FRAG \in StrictFrags THEN "strict" ELSE IF FRAG \in ModuleFrags THEN "module" ELSE "script"

Names1 == S({"a", "let", "static", "yield", "await", "async", "eval", "package", "of", "(", ")", "=", "var"})
Names2 == S({"a", "yield", "await", "let", "arguments", ";", "}"})
          \cup {<<"function", "f", "(", ")", "{">>, <<"function", "*", "f", "(", ")", "{">>, <<"async", "function", "f", "(", ")", "{">>, <<"var">>, <<"=>">>, <<"function", "*">>, <<"(", ")", "{">>}
Redecl == {<<"var", "a", ";">>, <<"let", "a", ";">>, <<"function", "a", "(", ")", "{", "}">>, <<"class", "a", "{", "}">>,
           <<"{">>, <<"}">>, <<"function", "f", "(", "a", ")", "{">>, <<"try", "{", "}", "catch", "(", "a", ")", "{">>,
           <<"try", "{", "}", "catch", "(", "[", "a", "]", ")", "{">>,
           <<"for", "(", "let", "a", ";", ";", ")", "{">>, <<"for", "(", "var", "a", "of", "b", ")">>,
           <<"switch", "(", "b", ")", "{", "case", "1", ":">>, <<"async", "function", "a", "(", ")", "{", "}">>}
Ctx == {<<"function", "f", "(", ")", "{">>, <<"function", "*", "f", "(", ")", "{">>, <<"async", "function", "f", "(", ")", "{">>,
        <<"x", "=", "(", ")", "=>", "{">>, <<"x", "=", "async", "(", ")", "=>", "{">>, <<"while", "(", "a", ")", "{">>, <<"switch", "(", "a", ")", "{", "case", "1", ":">>,
        <<"a", ":">>, <<"}">>, <<";">>, <<"break">>, <<"continue">>, <<"break", "a">>, <<"continue", "a">>, <<"return">>}

\* all tokens, for random derivations of whole programs
AllToks == AllBin \cup AssignToks \cup
           {"a", "b", "f", "A", "async", "get", "of", "let", "static", "eval", "arguments", "1", "'s'", "null", "this", "/r/",
            "-", "+", "!", "~", "typeof", "void", "delete", "++", "--", "?", ":", ",", "(", ")", "[", "]", "{", "}", ".", "?.", "...", "=>", "`", "${",
            "new", "target", "super", "import", "yield", "await", "#b", "function", "class", "extends", "constructor", "set",
            "var", "const", "if", "else", "for", "while", "do", "return", "break", "continue", "switch", "case", "default", "try", "catch", "finally",
            "throw", "with", "debugger", ";", "NL"}
ModToks == {"export", "as", "from", "meta"}

Letters ==
  CASE FRAG \in {"words", "wordsS", "wordsM"} -> WordSet
    [] FRAG \in {"all", "allS"} -> S(AllToks)
    [] FRAG = "allM" -> S(AllToks \cup ModToks)
    [] FRAG = "ops"    -> S({"a", "1", "+", "-", "*", "**", "||", "??", "?", ":", "(", ")", "!"})
    [] FRAG = "chain"  -> S({"a"}) \cup {<<op, "a">> : op \in AllBin}
    [] FRAG = "unary"  -> S({"a", "-", "+", "!", "~", "typeof", "void", "delete", "++", "--", "**", "(", ")"})
    [] FRAG = "cond"   -> S({"a", "?", ":", ",", "||", "=", "(", ")", "=>", "in", "-"})
    [] FRAG = "paren"  -> S({"a", ")", "("}) \cup {<<"a", "+">>, <<"a", "*">>, <<"a", "**">>, <<"-", "(">>, <<"?", "a", ":">>, <<"a", "??">>, <<"||", "a">>}
    [] FRAG = "logic"  -> S({"a", "(", ")", "||", "&&", "??", "|"})
    [] FRAG = "seq"    -> S({"a", ",", "=", "?", ":", "(", ")", "=>", "[", "]"})
    [] FRAG = "aops"   -> S({"a"}) \cup {<<op, "a">> : op \in AssignToks} \cup {<<"+", "a">>, <<"?", "a", ":", "a">>, <<".", "a">>}
    [] FRAG = "assign" -> S({"a", "b", "=", "+=", "++", "(", ")", "[", "]", ".", "1", ","})
    [] FRAG = "mem"    -> S({"a", ".", "?.", "[", "]", "(", ")", "new", ","}) \cup {<<"`", "`">>}
    [] FRAG = "mem2"   -> S({"a", "new", "(", ")"}) \cup {<<".", "b">>, <<"?.", "b">>, <<"[", "a", "]">>, <<"?.", "[", "a", "]">>, <<"(", "b", ")">>, <<"?.", "(", ")">>, <<"`", "`">>}
    [] FRAG = "args"   -> S({"a", "(", ")", ",", "...", "new", "[", "]", "="})
    [] FRAG = "tpl"    -> S({"a", "+", "(", ")", "."}) \cup {<<"`", "${">>, <<"}", "`">>, <<"}", "${">>, <<"`", "`">>}
    [] FRAG = "re"     -> S({"a", "(", ")", "{", "}", ";", "NL", "++", "[", "]", "=>", "?", ":"}) \cup {<<"/", "r", "/">>}
    [] FRAG = "re2"    -> S({"typeof", "return", "a", "this", "null", "}", ".", "+", "1", "++", "throw", "in", "yield"}) \cup {<<"`", "${", "/", "r", "/", "}", "`">>, <<"`", "`">>, <<"/", "r", "/">>, <<"function", "f", "(", ")", "{">>, <<"if", "(", "a", ")">>, <<"x", "=">>}
    [] FRAG = "mem3"   -> S({"a", "import", "(", ")", ".", "new", "target", "super", ";", "#b"}) \cup {<<"function", "f", "(", ")", "{">>, <<"}">>}
    [] FRAG = "arrow"  -> S({"a", "b", "(", ")", "=>", ",", "=", "...", "{", "}", "async", "["})
    [] FRAG = "destr"  -> S({"a", "[", "]", "{", "}", ",", "=", ":", "...", "1", "("})
    [] FRAG = "pat"    -> S({"a", "[", "]", "{", "}", ",", "...", "=>", "(", ")"}) \cup {<<"a", ":">>, <<"a", "=", "1">>, <<"=", "b">>}
    [] FRAG = "vpat"   -> S({"var", "let", "const", "a", "b", "[", "]", "{", "}", ",", "=", "..."}) \cup {<<"a", ":">>}
    [] FRAG = "params" -> S({"a", "b", ",", "=", "...", "[", "]", "{", "}"}) \cup {<<"function", "f", "(">>, <<")", "{", "}">>}
    [] FRAG = "forhd"  -> S({"var", "let", "of", "in", "a", "[", "]", "=", ";", "1", "async"}) \cup {<<"for", "(">>, <<")", ";">>}
    [] FRAG = "forhd2" -> S({"const", "let", "{", "}", "a", ",", "=", "of", "in", ".", "("}) \cup {<<"for", "(">>, <<")", "b">>, <<";", ";">>}
    [] FRAG = "obj"    -> S({"a", "get", "async", "*", ":", ",", "[", "]", "1"}) \cup {<<"(", "{">>, <<"}", ")">>, <<"(", ")">>, <<"{", "}">>}
    [] FRAG = "obj2"   -> S({"get", "set", "async", "*", "a", "1", "'s'", ",", ":", "...", "="}) \cup {<<"(", "{">>, <<"}", ")">>, <<"[", "a", "]">>, <<"(", ")", "{", "}">>, <<"(", "b", ")", "{", "}">>}
    [] FRAG = "cls"    -> S({"a", "get", "static", "async", "*", "=", ";", "1", "#b", "}"}) \cup {<<"class", "A", "{">>, <<"(", ")">>, <<"{", "}">>}
    [] FRAG = "cls2"   -> S({"a", "get", "set", "static", "async", "*", ";", "NL", "#b", "constructor", "}"}) \cup {<<"class", "A", "{">>, <<"[", "a", "]">>, <<"(", ")", "{", "}">>, <<"(", "b", ")", "{", "}">>, <<"=", "1">>}
    [] FRAG = "clsx"   -> S({"class", "A", "extends", "a", "{", "}", ".", "(", ")", "[", "]", "="})
    [] FRAG = "clsp"   -> S({"#b", "a", "in", "}", ";"}) \cup {<<"class", "A", "{">>, <<"m", "(", ")", "{">>, <<"#b", "=", "1", ";">>, <<"get", "#b", "(", ")", "{", "}">>, <<"set", "#b", "(", "c", ")", "{", "}">>, <<"static", "#b", "(", ")", "{", "}">>, <<".", "#b">>}
    [] FRAG \in {"fn", "fnS"} -> S({"function", "async", "*", "a", "(", ")", "{", "}", ",", "NL", "yield", "="})
    [] FRAG = "asi"    -> S({"a", "b", "NL", ";", "++", "(", ")", "{", "}", "throw"})
    [] FRAG = "asi2"   -> S({"a", "NL", ";", "++", "[", "]", "+", "=", "{", "}", "in", "=>", "!"})
    [] FRAG = "asi3"   -> S({"a", "NL", ";", "}", "let", "async", "yield", "of", "=", "var"}) \cup {<<"function", "f", "(", ")", "{">>, <<"if", "(", "a", ")">>, <<"(", ")">>}
    [] FRAG = "stmt"   -> S({"else", "{", "}", ";", "b", "do", "var", "NL"}) \cup {<<"if", "(", "a", ")">>, <<"while", "(", "a", ")">>}
    [] FRAG = "ifs"    -> S({"else", "{", "}", ";", "NL", "b", ":"}) \cup {<<"if", "(", "a", ")">>, <<"function", "f", "(", ")", "{", "}">>, <<"for", "(", ";", ";", ")">>, <<"with", "(", "a", ")">>, <<"class", "A", "{", "}">>, <<"let", "c">>}
    [] FRAG = "jump"   -> S({"{", "}", "a", ":", ";", "NL", "break", "continue", "b"}) \cup {<<"while", "(", "a", ")">>}
    [] FRAG = "loops"  -> S({"do", "while", "(", ")", "a", ";", "NL", "for", "{", "}"})
    [] FRAG = "sw"     -> S({"}", "case", "default", "a", ":", "break", ";", "{", "NL"}) \cup {<<"switch", "(", "a", ")", "{">>, <<"let", "b">>}
    [] FRAG = "sw2"    -> {<<"switch", "(", "a", ")", "{">>, <<"case", "a", ":">>, <<"default", ":">>, <<"}">>, <<"break">>, <<"continue">>, <<"a">>, <<";">>, <<"{">>, <<"let", "b">>, <<"function", "f", "(", ")", "{">>, <<"NL">>}
    [] FRAG = "try"    -> S({"try", "catch", "finally", "(", "a", ")", ";", "[", "]"}) \cup {<<"{", "}">>}
    [] FRAG = "ret"    -> S({"}", "return", "throw", "NL", "a", ";", "++", "("}) \cup {<<"function", "f", "(", ")", "{">>, <<"debugger">>}
    [] FRAG = "vars"   -> S({"var", "let", "const", "a", "b", "=", ",", ";", "NL", "1", "{", "}"})
    [] FRAG = "imp"    -> S({"import", "a", "as", "{", "}", ",", "*", "'s'", ";", "default", "from", "NL"})
    [] FRAG = "imp2"   -> S({"import", "a", "b", "as", "{", "}", ",", "*", "default", "'s'", "("}) \cup {<<"from", "'s'">>}
    [] FRAG = "exp"    -> S({"export", "default", "var", "a", "b", "=", "{", "}", "as", ",", "*", "'s'"}) \cup {<<"from", "'s'">>}
    [] FRAG = "exp2"   -> S({"export", "default", "a", "async", "*", "NL", ";", "=>", "{", "}", "let"}) \cup {<<"function">>, <<"class">>, <<"(", ")", "{", "}">>, <<"=", "1">>}
    [] FRAG = "exp3"   -> {<<"export", "{", "a", "}", ";">>, <<"export", "{", "a", "as", "b", "}", ";">>, <<"export", "{", "b", "}", ";">>, <<"export", "var", "a", ";">>,
                           <<"export", "let", "b", ";">>, <<"export", "default", "a", ";">>, <<"export", "{", "a", "as", "default", "}", ";">>, <<"export", "*", "as", "b", "from", "'s'", ";">>,
                           <<"var", "a", ";">>, <<"let", "b", ";">>, <<"export", "function", "a", "(", ")", "{", "}">>, <<"import", "a", "from", "'s'", ";">>, <<"{">>, <<"}">>, <<"import", "{", "b", "}", "from", "'s'", ";">>,
                           <<"export", "class", "a", "{", "}">>, <<"export", "{", "b", "}", "from", "'s'", ";">>}
    [] FRAG \in {"redecl", "redeclS"} -> Redecl
    [] FRAG = "redeclM" -> Redecl \cup {<<"import", "a", "from", "'s'", ";">>}
    [] FRAG = "redecl2" -> {<<"var", "a", ";">>, <<"let", "a", ";">>, <<"{">>, <<"}">>, <<"const", "a", "=", "1", ";">>, <<"for", "(", "var", "a", "in", "b", ")">>, <<"for", "(", "let", "a", "of", "b", ")">>,
                           <<"for", "(", "const", "[", "a", "]", "of", "b", ")">>, <<"var", "{", "a", "}", "=", "b", ";">>, <<"let", "[", "a", "]", "=", "b", ";">>, <<"x", "=", "(", "a", ")", "=>", "{">>,
                           <<"x", "=", "function", "a", "(", ")", "{">>, <<"let", "a", ",", "b", ";">>, <<"var", "b", ",", "a", ";">>, <<"if", "(", "b", ")", "function", "a", "(", ")", "{", "}">>, <<"a", ":">>}
    [] FRAG = "redecl3" -> {<<"let", "a", ";">>, <<"var", "a", ";">>, <<"}">>, <<"class", "A", "{", "m", "(", "a", ")", "{">>, <<"class", "A", "{", "static", "{">>, <<"function", "f", "(", "a", ",", "a", ")", "{">>,
                           <<"function", "f", "(", "a", ",", "[", "a", "]", ")", "{">>, <<"x", "=", "(", "a", ",", "a", ")", "=>", "{">>, <<"x", "=", "{", "m", "(", "a", ",", "b", ")", "{">>, <<"1", ";">>,
                           <<"try", "{", "}", "catch", "{">>, <<"try", "{", "}", "catch", "(", "a", ")", "{">>, <<"for", "(", "var", "a", "of", "b", ")", "{">>, <<"x", "=", "class", "a", "{", "m", "(", ")", "{">>, <<"function", "*", "a", "(", ")", "{">>}
    [] FRAG = "names1" -> Names1
    [] FRAG = "names1S" -> Names1
    [] FRAG = "names1M" -> Names1
    [] FRAG \in {"names2", "names2S"} -> Names2
    [] FRAG \in {"ctx", "ctxS"} -> Ctx
    [] FRAG = "modctx" -> Ctx \cup {<<"await", "a">>}
    [] FRAG = "ctx2"   -> {<<"function", "f", "(", ")", "{">>, <<"function", "*", "f", "(", ")", "{">>, <<"async", "function", "f", "(", ")", "{">>, <<"async", "function", "*", "f", "(", ")", "{">>,
                           <<"x", "=", "(", ")", "=>", "{">>, <<"x", "=", "async", "(", ")", "=>", "{">>, <<"x", "=", "{", "m", "(", ")", "{">>, <<"x", "=", "{", "async", "m", "(", ")", "{">>,
                           <<"class", "A", "{", "m", "(", ")", "{">>, <<"class", "A", "{", "static", "{">>, <<"class", "A", "extends", "a", "{", "constructor", "(", ")", "{">>, <<"class", "A", "{", "constructor", "(", ")", "{">>,
                           <<"}">>, <<"await", "a", ";">>, <<"yield", ";">>, <<"yield", "a", ";">>, <<"super", ".", "a", ";">>, <<"super", "(", ")", ";">>, <<"new", ".", "target", ";">>, <<"return", ";">>, <<"await", ";">>}
    [] FRAG = "ctx3"   -> {<<"class", "A", "{">>, <<"class", "A", "extends", "a", "{">>, <<"m", "(">>, <<"b", "=">>, <<"[">>, <<"]">>, <<")", "{">>, <<"}">>, <<";">>, <<"static", "{">>,
                           <<"await", "a">>, <<"yield">>, <<"super", ".", "a">>, <<"super", "(", ")">>, <<"new", ".", "target">>, <<"arguments">>, <<"async", "function", "f", "(">>, <<"function", "*", "f", "(">>, <<"a", "=">>, <<"(", ")", "=>">>}
    [] FRAG = "labels" -> S({"a", ":", "b", ";", "{", "}", "break", "continue", "NL"}) \cup {<<"while", "(", "c", ")">>, <<"function", "f", "(", ")", "{">>, <<"for", "(", ";", ";", ")">>}
    [] FRAG = "use"    -> S({"'use strict'", "'s'", ";", "NL", "}", "(", ")", "+"}) \cup {<<"with", "(", "a", ")">>, <<"function", "f", "(", ")", "{">>, <<"a">>, <<"{">>}
    [] FRAG = "use2"   -> {<<"'use strict'", ";">>, <<"'s'", ";">>, <<"}">>, <<"function", "f", "(", ")", "{">>, <<"function", "eval", "(", ")", "{">>, <<"function", "f", "(", "a", ",", "a", ")", "{">>, <<"function", "f", "(", "eval", ")", "{">>,
                           <<"x", "=", "(", "arguments", ")", "=>", "{">>, <<"function", "f", "(", "a", "=", "1", ")", "{">>, <<"class", "eval", "{", "}">>, <<"x", "=", "{", "m", "(", "eval", ")", "{">>,
                           <<"with", "(", "a", ")", ";">>, <<"delete", "a", ";">>, <<"eval", "=", "1", ";">>, <<"arguments", "++", ";">>, <<"var", "eval", ";">>, <<"package", ";">>, <<"let", "static", ";">>, <<"yield", ";">>, <<"OCT", ";">>, <<"OCTSTR", ";">>, <<"{">>}
=============================================================================
