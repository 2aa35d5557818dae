-------------------------------- MODULE Ecma --------------------------------
(***************************************************************************)
(* The ECMAScript 2022 syntactic grammar, refined so that it contains no   *)
(* cover productions: assignment targets, patterns and parameters have     *)
(* their own nonterminals, and the early errors that are about syntax are  *)
(* built into the productions (contexts, look-ahead guards) or into the    *)
(* scope machine (module Machine).                                         *)
(*                                                                         *)
(* A symbol is a record  k (kind), s (text), c (context), d (declaration). *)
(*   t token   b binding-identifier token   n nonterminal   m tree mark    *)
(*   g guard   s scope operation                                           *)
(* Tree marks:  "[" opens a node, "]Type|f1|f2|x=s:v" closes it, its        *)
(* children being, in order, its fields f1, f2; "{" "}" delimit a list;     *)
(* "_" is null; "D" repeats the last value.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Frags

Toks == UNION { {l[i] : i \in 1..Len(l)} : l \in Letters }

(* The grammar context (the parameters of the ECMAScript nonterminals and what early errors need):
   i `in` allowed  y yield  a await  s strict  r return  b break  k continue  l labels  ll loop labels  pl labels
   directly before this statement  d declaration kind (or a nonterminal's own argument)  sp super property
   sc super call  nt new.target  m module  cs class field/static block (no arguments, no await name)
   u unique parameters  it statement-list item  lf labelled functions allowed  ctor class constructors may call super
   ne parameter list (no yield or await expressions)  us the body starts with a use strict directive
   lo, hi operator levels *)
C0 == [i |-> TRUE, y |-> FALSE, a |-> FALSE, s |-> Mode # "script", r |-> FALSE, b |-> FALSE, k |-> FALSE,
       l |-> {}, ll |-> {}, pl |-> {}, d |-> "none", sp |-> FALSE, sc |-> FALSE,
       nt |-> FALSE, m |-> Mode = "module", cs |-> FALSE, u |-> FALSE, it |-> FALSE, lf |-> FALSE, ctor |-> FALSE,
       ne |-> FALSE, us |-> FALSE, lo |-> 0, hi |-> 0]

(* y: the least number of tokens the symbol yields *)
MinY(z) ==
  CASE z \in {"SeqTail", "ExprTail1", "CondTail", "ShortTail", "CoalTail", "LogTail", "LogOr", "LogAnd", "BinTail", "ExpTail",
              "TailN", "TailM", "TailC", "TailO", "TailT1", "YieldArg", "Args", "ArgsT", "Els", "ElsT", "Props", "PropsT",
              "ElsA", "ElsAT", "PropsA", "PropsAT", "ElsB", "ElsBT", "PropsB", "PropsBT", "DefaultT", "Params", "ParamsT",
              "ParamsDup", "ParamsDupT", "ParamsSim", "ParamsSimT", "FieldSemi", "ClassEls", "StmtList", "Semi", "SemiE", "SemiDo",
              "DeclsB", "DeclsT", "DeclsCT", "Else", "OptExpr", "FDeclsT", "FDeclsCT", "Finally", "Cases", "Cases1",
              "ModList", "ImpSpecs", "ImpSpecsT", "ExpSpecs", "ExpSpecsT", "Prog"} -> 0
    [] z \in {"Arr", "Obj", "FnBody", "ClassBody", "ClassTail", "Block", "PatA", "PatB", "Spread", "ForHeadD", "LexDecl", "VarStmt", "From", "ImpNamed",
              "Import", "TryTail", "Acc", "Invoke", "Opt", "Tagged", "TailT", "Tpl", "AssignTail"} -> 2
    [] z \in {"Arrow", "SuperProp", "Meta", "MemAcc", "Case", "Catch", "DeclI", "ImpNs", "PrivIn", "Export", "ClassExpr"} -> 3
    [] z \in {"MethVal", "GetVal", "FnRest", "Try", "AsyncArrow", "ClassDecl", "DefClass"} -> 4
    [] z \in {"SetVal", "ClassMeth", "PropMeth", "If", "FnExpr", "FnDecl", "DefFn", "PlainFn", "Switch", "Iter"} -> 5
    [] OTHER -> 1

t(x) == [k |-> "t", s |-> x, c |-> 0, d |-> "", y |-> 1]
bi(x, d) == [k |-> "b", s |-> x, c |-> 0, d |-> d, y |-> 1]
m(x) == [k |-> "m", s |-> x, c |-> 0, d |-> "", y |-> 0]
gd(x) == [k |-> "g", s |-> x, c |-> 0, d |-> "", y |-> 0]
so(x) == [k |-> "s", s |-> x, c |-> 0, d |-> "", y |-> 0]
nn(x, c) == [k |-> "n", s |-> x, c |-> c, d |-> "", y |-> MinY(x)]
StartSym == nn("Prog", C0)

B == m("[")
E(x) == m("]" \o x)
LB == m("{")
RB == m("}")
NUL == m("_")
NoNL == gd("nonl")
U == m("U")     \* open a node whose first child is the value just written

(* ------------------------------ names ----------------------------------- *)
PlainIds == {"a", "b", "c", "f", "m", "x", "target", "meta", "constructor", "A", "async", "get", "set", "of", "from", "as", "é", "r"}
\* `let`, `static`, ... are identifiers in sloppy code only
IdRefs(c) == (PlainIds
              \cup (IF c.s THEN {} ELSE {"let", "static", "package"})
              \cup (IF c.s \/ c.y THEN {} ELSE {"yield"})
              \cup (IF c.a \/ c.m \/ c.cs THEN {} ELSE {"await"})
              \cup (IF c.cs THEN {"eval"} ELSE {"eval", "arguments"})) \cap Toks
\* names that may be bound or assigned
BindNames(c) == IdRefs(c) \ (IF c.s THEN {"eval", "arguments"} ELSE {})
LexNames(c) == BindNames(c) \ {"let"}
Reserved == {"in", "new", "if", "else", "for", "while", "do", "return", "var", "const", "class", "function",
             "delete", "typeof", "void", "this", "null", "true", "false", "try", "catch", "finally", "throw",
             "switch", "case", "default", "break", "continue", "with", "debugger", "super", "import", "export",
             "extends", "instanceof", "enum"}
PropNames == (PlainIds \cup Reserved \cup {"let", "static", "yield", "await", "eval", "arguments", "package",
              "constructor", "target", "meta"}) \cap Toks

Id(x) == <<B, t(x), E("Identifier|name=s:" \o x)>>

(* ---------------------------- operators --------------------------------- *)
BinOps == << {"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!=", "===", "!=="},
             {"<", ">", "<=", ">=", "instanceof", "in"}, {"<<", ">>", ">>>"}, {"+", "-"}, {"*", "/", "%"} >>
BinEnd(op) == E((IF op \in {"||", "&&", "??"} THEN "LogicalExpression" ELSE "BinaryExpression")
                \o "|left|right|operator=s:" \o op)
UnOps == {"-", "+", "!", "~", "typeof", "void", "delete"}
AssignOps == {"=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??="}

MEM(opt) == E("MemberExpression|object|property|computed=b:false|optional=b:" \o opt)
MEMC(opt) == E("MemberExpression|object|property|computed=b:true|optional=b:" \o opt)
CALL(opt) == E("CallExpression|callee|arguments|optional=b:" \o opt)
FN(ty, g, a) == E(ty \o "|id|params|body|generator=b:" \o g \o "|async=b:" \o a)

FnCtx(c, y, a) == [c EXCEPT !.i = TRUE, !.y = y, !.a = a, !.r = TRUE, !.b = FALSE, !.k = FALSE, !.l = {}, !.ll = {}, !.pl = {},
                   !.sp = FALSE, !.sc = FALSE, !.nt = TRUE, !.cs = FALSE, !.ne = FALSE, !.us = FALSE]
MethCtx(c, y, a) == [FnCtx(c, y, a) EXCEPT !.sp = TRUE]
ArrCtx(c, a) == [c EXCEPT !.y = FALSE, !.a = a, !.r = TRUE, !.b = FALSE, !.k = FALSE, !.l = {}, !.ll = {}, !.pl = {},
                          !.ne = FALSE]
Sub(c) == [c EXCEPT !.pl = {}, !.it = FALSE, !.lf = FALSE]    \* a statement inside a statement
Loop(c) == [Sub(c) EXCEPT !.b = TRUE, !.k = TRUE, !.ll = @ \cup c.pl]
Lv(c, q, cap) == [c EXCEPT !.lo = q, !.hi = cap]

(* the ways to read a function: without and with a use strict directive in its body, which makes all of it strict *)
HasUS == "'use strict'" \in Toks
Forms(c) == {c} \cup (IF HasUS THEN {[c EXCEPT !.s = TRUE, !.us = TRUE]} ELSE {})
PCtx(c) == [c EXCEPT !.i = TRUE, !.ne = TRUE]
\* the beginning of a body
BodyDir(c) == IF ~HasUS THEN <<>> ELSE IF c.us THEN <<nn("Dirs", c)>> ELSE <<gd("dir")>>
BodyCtx(c) == [c EXCEPT !.us = FALSE]
IsLex(d) == d \in {"lex", "xlex"}

FnHeads == { << <<t("function")>>, "false", "false">>, << <<t("function"), t("*")>>, "true", "false">>,
             << <<t("async"), NoNL, t("function")>>, "false", "true">>, << <<t("async"), NoNL, t("function"), t("*")>>, "true", "true">> }
\* declarations inside `export` are exported as well
Xd(c, d) == IF c.d = "export" THEN "x" \o d ELSE d

NT1 == {"Expr", "SeqTail", "ExprTail", "ExprTail1", "Assign", "AssignTail", "Yield", "YieldArg", "Cond", "CondTail", "Short", "ShortTail", "CoalTail", "LogTail2"}
Prods1(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "Expr" -> { <<N("Assign"), N("SeqTail")>> }
  [] z = "SeqTail" -> { <<>>, <<m("U{"), t(","), N("ExprTail"), RB, E("SequenceExpression|expressions")>> }
  [] z = "ExprTail" -> { <<N("Assign"), N("ExprTail1")>> }
  [] z = "ExprTail1" -> { <<>>, <<t(","), N("ExprTail")>> }
  [] z = "Assign" ->
       { <<N("Cond")>>, <<N("Arrow")>>, <<N("AsyncArrow")>> }
       \cup (IF c.y /\ ~c.ne THEN {<<N("Yield")>>} ELSE {})
       \cup { <<B, N("SimpleT"), N("AssignTail")>>,
              <<B, N("PatA"), t("="), N("Assign"), E("AssignmentExpression|left|right|operator=s:=")>> }
  [] z = "AssignTail" -> { <<t(op), N("Assign"), E("AssignmentExpression|left|right|operator=s:" \o op)>> : op \in AssignOps }
  [] z = "Yield" -> { <<B, t("yield"), N("YieldArg")>> }
  [] z = "YieldArg" -> { <<NUL, gd("arrowend"), E("YieldExpression|argument|delegate=b:false")>>,
                         <<NoNL, N("Assign"), E("YieldExpression|argument|delegate=b:false")>>,
                         <<NoNL, t("*"), N("Assign"), E("YieldExpression|argument|delegate=b:true")>> }
  [] z = "Cond" -> { <<N("Short"), N("CondTail")>> }
  [] z = "CondTail" -> { <<>>, <<U, t("?"), Nin("Assign"), t(":"), N("Assign"), E("ConditionalExpression|test|consequent|alternate")>> }
  \* binary operators: the levels of BinOps; the tail of level q and cap p continues a left operand with operators
  \* of levels q..p, the right operand of a level-p operator being a whole expression of level p+1
  [] z = "Short" -> { <<N("Operand"), nn("BinTail", Lv(c, 3, 10)), N("ShortTail")>> }
                    \cup { <<nn("PrivIn", c), nn("BinTail", Lv(c, 3, 7)), N("ShortTail")>> }
  [] z = "ShortTail" -> { <<>>, <<U, t("??"), nn("Bin3", c), BinEnd("??"), N("CoalTail")>>,
                          <<N("LogTail2")>>, <<N("LogTail1")>> }
  [] z = "CoalTail" -> { <<>>, <<U, t("??"), nn("Bin3", c), BinEnd("??"), N("CoalTail")>> }
  [] z = "LogTail2" -> { <<U, t("&&"), nn("Bin3", c), BinEnd("&&"), N("LogTail")>> }

NT2 == {"LogTail1", "LogTail", "LogOr", "Bin2", "LogAnd", "Bin3", "BinR", "BinTail", "PrivIn", "Operand", "ExpTail", "Unary", "UnaryOp", "Update"}
Prods2(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "LogTail1" -> { <<U, t("||"), nn("Bin2", c), BinEnd("||"), N("LogOr")>> }
  [] z = "LogTail" -> { <<>>, <<N("LogTail2")>>, <<N("LogTail1")>> }
  [] z = "LogOr" -> { <<>>, <<N("LogTail1")>> }
  [] z = "Bin2" -> { <<N("Bin3"), N("LogAnd")>> }
  [] z = "LogAnd" -> { <<>>, <<U, t("&&"), nn("Bin3", c), BinEnd("&&"), N("LogAnd")>> }
  [] z = "Bin3" -> { <<N("Operand"), nn("BinTail", Lv(c, 3, 10))>>, <<N("PrivIn"), nn("BinTail", Lv(c, 3, 7))>> }
  [] z = "BinR" -> \* a right operand; c.lo is its level
       LET q == c.lo IN
       { <<N("Operand"), nn("BinTail", Lv(c, q, 10))>> } \cup (IF q <= 7 THEN { <<N("PrivIn"), nn("BinTail", Lv(c, q, 7))>> } ELSE {})
  [] z = "BinTail" ->
       LET qp == <<c.lo, c.hi>> IN
       {<<>>} \cup UNION { { <<U, t(op), nn("BinR", [c EXCEPT !.lo = p + 1]), BinEnd(op), nn("BinTail", Lv(c, qp[1], p))>>
                             : op \in BinOps[p] \ (IF c.i THEN {} ELSE {"in"}) } : p \in qp[1]..qp[2] }
  [] z = "PrivIn" -> IF c.i THEN { <<B, B, bi("#b", "pref"), E("PrivateIdentifier|name=s:b"), t("in"), nn("BinR", [c EXCEPT !.lo = 8]), BinEnd("in")>> } ELSE {}
  [] z = "Operand" -> { <<N("UnaryOp")>>, <<N("Update"), N("ExpTail")>> }
  [] z = "ExpTail" -> { <<>>, <<U, t("**"), N("Operand"), BinEnd("**")>> }
  [] z = "Unary" -> { <<N("UnaryOp")>>, <<N("Update")>> }
  [] z = "UnaryOp" ->
       { <<B, t(op), N("Unary"), E("UnaryExpression|argument|prefix=b:true|operator=s:" \o op)>>
              : op \in UnOps \ (IF c.s THEN {"delete"} ELSE {}) }
       \cup (IF c.s THEN { <<B, t("delete"), gd("del0"), N("Unary"), E("UnaryExpression|argument|prefix=b:true|operator=s:delete")>> } ELSE {})
       \cup (IF c.a /\ ~c.ne THEN { <<B, t("await"), N("Unary"), E("AwaitExpression|argument")>> } ELSE {})
  [] z = "Update" ->
       { <<N("LHS")>> }
       \cup UNION { { <<B, N("SimpleT"), NoNL, t(op), gd("postfix"), E("UpdateExpression|argument|prefix=b:false|operator=s:" \o op)>>,
                      <<B, t(op), N("SimpleT"), E("UpdateExpression|argument|prefix=b:true|operator=s:" \o op)>> } : op \in {"++", "--"} }
  \* member chains.  M: member, C: after a call, O: inside an optional chain

NT3 == {"LHS", "New", "Head", "CallHead", "Acc", "Tagged", "Invoke", "Opt", "TailN", "TailM", "TailC", "TailO", "MemAcc", "TailT"}
Prods3(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "LHS" -> { <<N("Head"), N("TailM")>>, <<N("CallHead"), N("TailC")>>,
                    <<B, t("new"), N("New"), LB, RB, E("NewExpression|callee|arguments")>> }
  [] z = "New" -> { <<N("Head"), N("TailN")>>, <<B, t("new"), N("New"), LB, RB, E("NewExpression|callee|arguments")>> }
  [] z = "Head" -> { <<N("Prim")>>, <<N("SuperProp")>>, <<N("Meta")>>,
                     <<B, t("new"), N("Head"), N("TailN"), t("("), LB, Nin("Args"), RB, t(")"), E("NewExpression|callee|arguments")>> }
  [] z = "CallHead" ->
       { <<B, t("import"), t("("), Nin("Assign"), t(")"), E("ImportExpression|source")>> }
       \cup (IF c.sc THEN { <<B, B, t("super"), E("Super"), t("("), LB, Nin("Args"), RB, t(")"), CALL("false")>> } ELSE {})
  [] z = "Acc" -> { <<U, t("["), Nin("Expr"), t("]"), MEMC("false")>>, <<U, t("."), N("PropName"), MEM("false")>> }
  [] z = "Tagged" -> { <<U, N("Tpl"), E("TaggedTemplateExpression|tag|quasi")>> }
  [] z = "Invoke" -> { <<U, t("("), LB, Nin("Args"), RB, t(")"), CALL("false")>> }
  [] z = "Opt" -> { <<U, t("?."), N("PropName"), MEM("true")>>,
                    <<U, t("?."), t("["), Nin("Expr"), t("]"), MEMC("true")>>,
                    <<U, t("?."), t("("), LB, Nin("Args"), RB, t(")"), CALL("true")>> }
  [] z = "TailN" -> { <<>>, <<N("Acc"), N("TailN")>>, <<N("Tagged"), N("TailN")>> }
  [] z = "TailM" -> { <<>>, <<N("Acc"), N("TailM")>>, <<N("Tagged"), N("TailM")>>, <<N("Invoke"), N("TailC")>>, <<N("Opt"), N("TailO")>> }
  [] z = "TailC" -> { <<>>, <<N("Acc"), N("TailC")>>, <<N("Tagged"), N("TailC")>>, <<N("Invoke"), N("TailC")>>, <<N("Opt"), N("TailO")>> }
  [] z = "TailO" -> { <<U, E("ChainExpression|expression")>>, <<N("Acc"), N("TailO")>>, <<N("Invoke"), N("TailO")>>, <<N("Opt"), N("TailO")>> }
  \* property accesses usable as assignment targets
  [] z = "MemAcc" -> { <<N("SuperProp")>>, <<N("Head"), N("TailT")>>, <<N("CallHead"), N("TailT")>> }
  [] z = "TailT" -> { <<N("Acc"), N("TailT1")>>, <<N("Tagged"), N("TailT")>>, <<N("Invoke"), N("TailT")>> }

NT4 == {"TailT1", "PropName", "SuperProp", "PropNameP", "Meta", "Args", "ArgsT", "Arg", "Spread", "SimpleT", "Prim", "Lit", "Tpl", "TplRest"}
Prods4(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "TailT1" -> { <<>>, <<N("TailT")>> }
  [] z = "PropName" -> { Id(x) : x \in PropNames } \cup { <<B, bi("#b", "pref"), E("PrivateIdentifier|name=s:b")>> }
  [] z = "SuperProp" -> IF c.sp THEN { <<B, B, t("super"), E("Super"), t("."), N("PropNameP"), MEM("false")>>,
                                       <<B, B, t("super"), E("Super"), t("["), Nin("Expr"), t("]"), MEMC("false")>> } ELSE {}
  [] z = "PropNameP" -> { Id(x) : x \in PropNames }
  [] z = "Meta" -> (IF c.nt THEN { <<B, B, t("new"), E("Identifier|name=s:new"), t("."), B, t("target"), E("Identifier|name=s:target"),
                                    E("MetaProperty|meta|property")>> } ELSE {})
                   \cup (IF c.m THEN { <<B, B, t("import"), E("Identifier|name=s:import"), t("."), B, t("meta"), E("Identifier|name=s:meta"),
                                    E("MetaProperty|meta|property")>> } ELSE {})
  [] z = "Args" -> { <<>>, <<N("Arg"), N("ArgsT")>> }
  [] z = "ArgsT" -> { <<>>, <<t(","), N("Args")>> }
  [] z = "Arg" -> { <<N("Assign")>>, <<N("Spread")>> }
  [] z = "Spread" -> { <<B, t("..."), Nin("Assign"), E("SpreadElement|argument")>> }
  [] z = "SimpleT" -> { Id(x) : x \in BindNames(c) } \cup { <<N("MemAcc")>>, <<B, t("("), N("SimpleT"), t(")"), E("PAREN")>> }
  [] z = "Prim" ->
       { Id(x) : x \in IdRefs(c) }
       \cup { <<N("Lit")>>, <<N("Arr")>>, <<N("Obj")>>, <<N("FnExpr")>>, <<N("ClassExpr")>>, <<N("Tpl")>>,
              <<B, t("this"), E("ThisExpression")>>,
              <<B, t("("), Nin("Expr"), t(")"), E("PAREN")>> }
  [] z = "Lit" -> { <<B, t("1"), E("Literal|value=n:1")>>, <<B, t("'s'"), E("Literal|value=s:s")>>,
                    <<B, t("null"), E("Literal|value=z:")>>, <<B, t("true"), E("Literal|value=b:true")>>,
                    <<B, t("/r/"), E("Literal|*")>>, <<B, t("/"), NoNL, t("r"), NoNL, t("/"), E("Literal|*")>>, <<B, t("'use strict'"), E("Literal|value=s:use strict")>> }
                  \cup (IF c.s THEN {} ELSE { <<B, t("OCT"), E("Literal|value=n:8")>>, <<B, t("OCTSTR"), E("Literal|*")>> })
  [] z = "Tpl" -> { <<m("T["), t("`"), N("TplRest")>> }
  [] z = "TplRest" -> { <<t("`"), m("T]")>>, <<t("${"), Nin("Expr"), t("}"), N("TplRest")>> }

NT5 == {"Arr", "Els", "ElsT", "Obj", "Props", "PropsT", "Prop", "Key", "PropMeth", "MethVal", "GetVal", "SetVal", "PatA", "TargetA"}
Prods5(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "Arr" -> { <<B, t("["), LB, Nin("Els"), RB, t("]"), E("ArrayExpression|elements")>> }
  [] z = "Els" -> { <<>>, <<NUL, t(","), N("Els")>>, <<N("Arg"), N("ElsT")>> }
  [] z = "ElsT" -> { <<>>, <<t(","), N("Els")>> }
  [] z = "Obj" -> { <<B, t("{"), LB, Nin("Props"), RB, t("}"), E("ObjectExpression|properties")>> }
  [] z = "Props" -> { <<>>, <<N("Prop"), N("PropsT")>> }
  [] z = "PropsT" -> { <<>>, <<t(","), N("Props")>> }
  [] z = "Prop" ->
       { <<B>> \o Id(x) \o <<m("D"), E("Property|key|value|kind=s:init|method=b:false|shorthand=b:true|computed=b:false")>> : x \in IdRefs(c) }
       \cup { <<B, N("Key"), t(":"), N("Assign"), E("Property|key|value|kind=s:init|method=b:false|shorthand=b:false|computed=b:false")>>,
              <<B, t("["), N("Assign"), t("]"), t(":"), N("Assign"), E("Property|key|value|kind=s:init|method=b:false|shorthand=b:false|computed=b:true")>>,
              <<N("Spread")>>, <<N("PropMeth")>> }
  [] z = "Key" -> { Id(x) : x \in PropNames } \cup { <<B, t("1"), E("Literal|value=n:1")>>, <<B, t("'s'"), E("Literal|value=s:s")>> }
  [] z = "PropMeth" ->
       UNION { LET key == IF cmp = "true" THEN <<t("["), N("Assign"), t("]")>> ELSE <<N("Key")>>
                   fin(kind, meth) == E("Property|key|value|kind=s:" \o kind \o "|method=b:" \o meth \o "|shorthand=b:false|computed=b:" \o cmp)
               IN { <<B>> \o key \o <<nn("MethVal", MethCtx(c, FALSE, FALSE)), fin("init", "true")>>,
                    <<B, t("*")>> \o key \o <<nn("MethVal", MethCtx(c, TRUE, FALSE)), fin("init", "true")>>,
                    <<B, t("async"), NoNL>> \o key \o <<nn("MethVal", MethCtx(c, FALSE, TRUE)), fin("init", "true")>>,
                    <<B, t("async"), NoNL, t("*")>> \o key \o <<nn("MethVal", MethCtx(c, TRUE, TRUE)), fin("init", "true")>>,
                    <<B, t("get")>> \o key \o <<nn("GetVal", MethCtx(c, FALSE, FALSE)), fin("get", "false")>>,
                    <<B, t("set")>> \o key \o <<nn("SetVal", MethCtx(c, FALSE, FALSE)), fin("set", "false")>> }
               : cmp \in {"false", "true"} }
  [] z = "MethVal" -> { <<B, NUL, so("fn"), t("("), LB, nn(IF f.us THEN "ParamsSim" ELSE "Params", PCtx(f)), RB, t(")"), nn("FnBody", f), so("pop"),
                          FN("FunctionExpression", IF c.y THEN "true" ELSE "false", IF c.a THEN "true" ELSE "false")>> : f \in Forms(c) }
  [] z = "GetVal" -> { <<B, NUL, so("fn"), t("("), LB, RB, t(")"), nn("FnBody", f), so("pop"), FN("FunctionExpression", "false", "false")>> : f \in Forms(c) }
  [] z = "SetVal" -> { <<B, NUL, so("fn"), t("("), LB, nn(IF f.us THEN "ParamSim" ELSE "Param", PCtx(f)), RB, t(")"), nn("FnBody", f), so("pop"),
                         FN("FunctionExpression", "false", "false")>> : f \in Forms(c) }
  (* ------------------------------ patterns ------------------------------ *)
  \* assignment patterns
  [] z = "PatA" -> { <<B, t("["), LB, Nin("ElsA"), RB, t("]"), E("ArrayPattern|elements")>>,
                     <<B, t("{"), LB, Nin("PropsA"), RB, t("}"), E("ObjectPattern|properties")>> }
  [] z = "TargetA" -> { <<N("SimpleT")>>, <<N("PatA")>> }

NT6 == {"DefaultT", "ElA", "ElsA", "ElsAT", "PropsAT", "PropsA", "PropA", "BId", "PatB", "TargetB", "ElB", "ElsB", "ElsBT", "PropsBT"}
Prods6(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "DefaultT" -> { <<>>, <<U, t("="), Nin("Assign"), E("AssignmentPattern|left|right")>> }
  [] z = "ElA" -> { <<N("TargetA"), N("DefaultT")>> }
  [] z = "ElsA" -> { <<>>, <<NUL, t(","), N("ElsA")>>, <<N("ElA"), N("ElsAT")>>,
                     <<B, t("..."), N("TargetA"), E("RestElement|argument")>> }
  [] z = "ElsAT" -> { <<>>, <<t(","), N("ElsA")>> }
  [] z = "PropsAT" -> { <<>>, <<t(","), N("PropsA")>> }
  [] z = "PropsA" -> { <<>>, <<N("PropA"), N("PropsAT")>>,
                       <<B, t("..."), N("SimpleT"), E("RestElement|argument")>> }
  [] z = "PropA" ->
       UNION { { <<B>> \o Id(x) \o <<m("D"), E("Property|key|value|kind=s:init|method=b:false|shorthand=b:true|computed=b:false")>>,
                 <<B>> \o Id(x) \o <<m("D<"), t("="), N("Assign"), E("AssignmentPattern|left|right"),
                     E("Property|key|value|kind=s:init|method=b:false|shorthand=b:true|computed=b:false")>> } : x \in BindNames(c) }
       \cup { <<B, N("Key"), t(":"), N("ElA"), E("Property|key|value|kind=s:init|method=b:false|shorthand=b:false|computed=b:false")>>,
              <<B, t("["), N("Assign"), t("]"), t(":"), N("ElA"), E("Property|key|value|kind=s:init|method=b:false|shorthand=b:false|computed=b:true")>> }
  \* binding patterns; c.d says what they declare
  [] z = "BId" -> { <<B, bi(x, c.d), E("Identifier|name=s:" \o x)>> : x \in (IF IsLex(c.d) THEN LexNames(c) ELSE BindNames(c)) }
  [] z = "PatB" -> { <<B, t("["), LB, Nin("ElsB"), RB, t("]"), E("ArrayPattern|elements")>>,
                     <<B, t("{"), LB, Nin("PropsB"), RB, t("}"), E("ObjectPattern|properties")>> }
  [] z = "TargetB" -> { <<N("BId")>>, <<N("PatB")>> }
  [] z = "ElB" -> { <<N("TargetB"), N("DefaultT")>> }
  [] z = "ElsB" -> { <<>>, <<NUL, t(","), N("ElsB")>>, <<N("ElB"), N("ElsBT")>>,
                     <<B, t("..."), N("TargetB"), E("RestElement|argument")>> }
  [] z = "ElsBT" -> { <<>>, <<t(","), N("ElsB")>> }
  [] z = "PropsBT" -> { <<>>, <<t(","), N("PropsB")>> }

NT7 == {"PropsB", "PropB", "ParamsT", "Params", "Param", "ParamsDup", "ParamsDupT", "ParamsSim", "ParamsSimT", "ParamSim", "Arrow", "AsyncArrow", "ArrowBody", "FnExpr"}
Prods7(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "PropsB" -> { <<>>, <<N("PropB"), N("PropsBT")>>,
                       <<B, t("..."), N("BId"), E("RestElement|argument")>> }
  [] z = "PropB" ->
       { <<B, N("BId"), m("D"), E("Property|key|value|kind=s:init|method=b:false|shorthand=b:true|computed=b:false")>>,
         <<B, N("BId"), m("D<"), t("="), N("Assign"), E("AssignmentPattern|left|right"),
            E("Property|key|value|kind=s:init|method=b:false|shorthand=b:true|computed=b:false")>>,
         <<B, N("Key"), t(":"), N("ElB"), E("Property|key|value|kind=s:init|method=b:false|shorthand=b:false|computed=b:false")>>,
         <<B, t("["), N("Assign"), t("]"), t(":"), N("ElB"), E("Property|key|value|kind=s:init|method=b:false|shorthand=b:false|computed=b:true")>> }
  [] z = "ParamsT" -> { <<>>, <<t(","), N("Params")>> }
  [] z = "Params" -> { <<>>, <<N("Param"), N("ParamsT")>>,
                       <<B, t("..."), nn("TargetB", [c EXCEPT !.d = "upar"]), E("RestElement|argument")>> }
  [] z = "Param" -> { <<nn("ElB", [c EXCEPT !.d = "upar"])>> }
  \* plain names: duplicates allowed (sloppy functions), unique (bodies with a use strict directive)
  [] z = "ParamsDup" -> { <<>>, <<nn("BId", [c EXCEPT !.d = "par"]), N("ParamsDupT")>> }
  [] z = "ParamsDupT" -> { <<>>, <<t(","), N("ParamsDup")>> }
  [] z = "ParamsSim" -> { <<>>, <<N("ParamSim"), N("ParamsSimT")>> }
  [] z = "ParamsSimT" -> { <<>>, <<t(","), N("ParamsSim")>> }
  [] z = "ParamSim" -> { <<nn("BId", [c EXCEPT !.d = "upar"])>> }
  (* ------------------------------ functions ----------------------------- *)
  [] z = "Arrow" ->
       { <<B, so("fn"), LB, nn("BId", [PCtx(f) EXCEPT !.d = "upar"]), RB, NoNL, t("=>"), nn("ArrowBody", ArrCtx(f, FALSE))>> : f \in Forms(c) }
       \cup { <<B, so("fn"), t("("), LB, nn(IF f.us THEN "ParamsSim" ELSE "Params", PCtx(f)), RB, t(")"), NoNL, t("=>"), nn("ArrowBody", ArrCtx(f, FALSE))>> : f \in Forms(c) }
  [] z = "AsyncArrow" ->
       { <<B, t("async"), NoNL, so("fn"), LB, nn("BId", [PCtx(f) EXCEPT !.d = "upar", !.a = TRUE]), RB, NoNL, t("=>"), nn("ArrowBody", ArrCtx(f, TRUE))>> : f \in Forms(c) }
       \cup { <<B, t("async"), NoNL, so("fn"), t("("), LB, nn(IF f.us THEN "ParamsSim" ELSE "Params", [PCtx(f) EXCEPT !.a = TRUE]), RB, t(")"), NoNL, t("=>"),
                nn("ArrowBody", ArrCtx(f, TRUE))>> : f \in Forms(c) }
  [] z = "ArrowBody" ->
       LET fin(x) == E("ArrowFunctionExpression|params|body|generator=b:false|async=b:" \o (IF c.a THEN "true" ELSE "false") \o "|expression=b:" \o x) IN
       { <<nn("FnBody", [c EXCEPT !.i = TRUE]), so("pop"), gd("arrowend"), fin("false")>> }
       \cup (IF c.us THEN {} ELSE { <<gd("nobrace"), N("Assign"), so("pop"), fin("true")>> })
  [] z = "FnExpr" ->
       UNION { { <<B>> \o hf[1][1] \o nm \o <<nn("FnRest", hf[2]), FN("FunctionExpression", hf[1][2], hf[1][3])>>
                 : nm \in {<<NUL>>, <<nn("BId", [hf[2] EXCEPT !.d = "none"])>>} }
               : hf \in UNION { { <<h, f>> : f \in Forms(FnCtx(c, h[2] = "true", h[3] = "true")) } : h \in FnHeads } }

NT8 == {"FnDecl", "FnRest", "FnBody", "Dirs", "ClassExpr", "ClassDecl", "ClassTail", "ClassBody", "ClassEls", "ClassEl", "ClassMeth", "CKey", "Field", "FieldSemi"}
Prods8(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "FnDecl" ->
       UNION { { <<B>> \o h[1] \o <<nn("BId", [c EXCEPT !.s = f.s, !.d = Xd(c, IF h[2] = "false" /\ h[3] = "false" /\ ~c.s THEN "fn" ELSE "fns")]),
                   nn("FnRest", f), FN("FunctionDeclaration", h[2], h[3])>> : f \in Forms(FnCtx(c, h[2] = "true", h[3] = "true")) } : h \in FnHeads }
  \* parameters and body of a function
  [] z = "FnRest" ->
       IF c.us THEN { <<so("fn"), t("("), LB, nn("ParamsSim", PCtx(c)), RB, t(")"), N("FnBody"), so("pop")>> }
       ELSE (IF c.s THEN {} ELSE { <<so("fn"), t("("), LB, nn("ParamsDup", PCtx(c)), RB, t(")"), N("FnBody"), so("pop")>> })
            \cup { <<so("fn"), t("("), LB, nn("Params", PCtx(c)), RB, t(")"), N("FnBody"), so("pop")>> }
  [] z = "FnBody" -> { <<B, t("{"), LB>> \o BodyDir(c) \o <<nn("StmtList", BodyCtx(c)), RB, t("}"), E("BlockStatement|body")>> }
  [] z = "Dirs" -> { <<B, B, t("'use strict'"), E("Literal|value=s:use strict"), N("SemiE"), E("ExpressionStatement|expression")>>,
                     <<B, B, t("'s'"), E("Literal|value=s:s"), N("SemiE"), E("ExpressionStatement|expression"), N("Dirs")>> }
  (* ------------------------------- classes ------------------------------ *)
  [] z = "ClassExpr" -> LET cc == [c EXCEPT !.s = TRUE] IN
       { <<B, t("class")>> \o nm \o <<nn("ClassTail", cc), E("ClassExpression|id|superClass|body")>>
         : nm \in {<<NUL>>, <<nn("BId", [cc EXCEPT !.d = "none"])>>} }
  [] z = "ClassDecl" -> LET cc == [c EXCEPT !.s = TRUE] IN
       { <<B, t("class"), nn("BId", [cc EXCEPT !.d = Xd(c, "lex")]), nn("ClassTail", cc), E("ClassDeclaration|id|superClass|body")>> }
  [] z = "ClassTail" -> { <<so("cls"), NUL, nn("ClassBody", [c EXCEPT !.ctor = FALSE]), so("popcls")>>,
                          <<so("cls"), t("extends"), N("LHS"), nn("ClassBody", [c EXCEPT !.ctor = TRUE]), so("popcls")>> }
  [] z = "ClassBody" -> { <<B, t("{"), LB, N("ClassEls"), RB, t("}"), E("ClassBody|body")>> }
  [] z = "ClassEls" -> { <<>>, <<t(";"), N("ClassEls")>>, <<N("ClassEl"), N("ClassEls")>> }
  [] z = "ClassEl" -> UNION { {<<nn("ClassMeth", [c EXCEPT !.d = st])>>, <<nn("Field", [c EXCEPT !.d = st])>>} : st \in {"false", "true"} }
                      \cup { <<B, t("static"), t("{"), so("fn"), LB,
                               nn("StmtList", [c EXCEPT !.i = TRUE, !.y = FALSE, !.a = FALSE, !.r = FALSE, !.b = FALSE, !.k = FALSE, !.l = {}, !.ll = {},
                                  !.pl = {}, !.sp = TRUE, !.sc = FALSE, !.nt = TRUE, !.cs = TRUE, !.ne = FALSE]), RB, so("pop"), t("}"), E("StaticBlock|body")>> }
                      \cup (IF "constructor" \notin Toks THEN {} ELSE
                            { <<B, B, bi("constructor", "ctor"), E("Identifier|name=s:constructor"),
                                nn("MethVal", [MethCtx(c, FALSE, FALSE) EXCEPT !.sc = c.ctor]),
                                E("MethodDefinition|key|value|kind=s:constructor|static=b:false|computed=b:false")>> })
  [] z = "ClassMeth" ->
       UNION { LET st == IF c.d = "true" THEN <<B, t("static")>> ELSE <<B>>
                   key(pd) == IF cmp = "true" THEN <<t("["), Nin("Assign"), t("]")>> ELSE <<nn("CKey", [c EXCEPT !.d = pd \o c.d])>>
                   fin(kind) == E("MethodDefinition|key|value|kind=s:" \o kind \o "|static=b:" \o c.d \o "|computed=b:" \o cmp)
               IN { st \o key("M") \o <<nn("MethVal", MethCtx(c, FALSE, FALSE)), fin("method")>>,
                    st \o <<t("*")>> \o key("P") \o <<nn("MethVal", MethCtx(c, TRUE, FALSE)), fin("method")>>,
                    st \o <<t("async"), NoNL>> \o key("P") \o <<nn("MethVal", MethCtx(c, FALSE, TRUE)), fin("method")>>,
                    st \o <<t("async"), NoNL, t("*")>> \o key("P") \o <<nn("MethVal", MethCtx(c, TRUE, TRUE)), fin("method")>>,
                    st \o <<t("get")>> \o key("G") \o <<nn("GetVal", MethCtx(c, FALSE, FALSE)), fin("get")>>,
                    st \o <<t("set")>> \o key("S") \o <<nn("SetVal", MethCtx(c, FALSE, FALSE)), fin("set")>> }
               : cmp \in {"false", "true"} }
  \* c.d: M method P generator/async G getter S setter F field, then static or not
  [] z = "CKey" -> { Id(x) : x \in PropNames \ (CASE c.d \in {"Mtrue"} -> {"prototype"}
                                                  [] c.d \in {"Mfalse", "Pfalse", "Gfalse", "Sfalse"} -> {"constructor"}
                                                  [] c.d = "Ftrue" -> {"constructor", "prototype"}
                                                  [] c.d = "Ffalse" -> {"constructor"}
                                                  [] OTHER -> {"prototype"}) }
                   \cup { <<B, t("1"), E("Literal|value=n:1")>>, <<B, t("'s'"), E("Literal|value=s:s")>> }
                   \cup { <<B, bi("#b", "priv" \o c.d), E("PrivateIdentifier|name=s:b")>> }
  [] z = "Field" ->
       UNION { LET st == IF c.d = "true" THEN <<B, t("static")>> ELSE <<B>>
                   fc == [c EXCEPT !.i = TRUE, !.y = FALSE, !.a = FALSE, !.sp = TRUE, !.nt = TRUE, !.cs = TRUE, !.sc = FALSE, !.ne = FALSE]
                   fin == E("PropertyDefinition|key|value|static=b:" \o c.d \o "|computed=b:" \o k[1])
               IN { st \o k[2] \o <<NUL, nn("FieldSemi", [c EXCEPT !.d = k[3]]), fin>>,
                    st \o k[2] \o <<t("="), nn("Assign", fc), nn("FieldSemi", [c EXCEPT !.d = "init"]), fin>> }
               : k \in { <<"true", <<t("["), Nin("Assign"), t("]")>>, "bare">> }
                       \cup { <<"false", Id(x), IF x \in {"get", "set"} THEN "getset" ELSE IF x = "static" /\ c.d = "false" THEN "static" ELSE "bare">>
                              : x \in PropNames \ (IF c.d = "true" THEN {"constructor", "prototype"} ELSE {"constructor"}) }
                       \cup { <<"false", <<B, t("1"), E("Literal|value=n:1")>>, "bare">>, <<"false", <<B, t("'s'"), E("Literal|value=s:s")>>, "bare">>,
                              <<"false", <<B, bi("#b", "privF" \o c.d), E("PrivateIdentifier|name=s:b")>>, "bare">> } }
  [] z = "FieldSemi" -> { <<t(";")>>, <<gd("must}")>> }
                        \cup (CASE c.d = "init" -> { <<gd("mustnl"), gd("cont")>> }
                                [] c.d = "getset" -> { <<gd("mustnl"), gd("fieldget")>> }
                                [] c.d = "static" -> {}
                                [] OTHER -> { <<gd("mustnl"), gd("field")>> })
  (* ------------------------------ statements ---------------------------- *)

NT9 == {"StmtList", "Item", "Stmt", "Labelled", "PlainFn", "Semi", "SemiE", "SemiDo", "ExprStmt", "Block", "VarStmt", "LexDecl", "Decls", "DeclsB"}
Prods9(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "StmtList" -> { <<>>, <<nn("Item", [c EXCEPT !.pl = {}, !.it = TRUE, !.lf = TRUE]), N("StmtList")>> }
  [] z = "Item" -> { <<N("Stmt")>>, <<N("FnDecl")>>, <<N("ClassDecl")>>, <<N("LexDecl")>> }
  [] z = "Stmt" ->
       { <<N("Block")>>, <<N("VarStmt")>>, <<N("ExprStmt")>>, <<N("If")>>, <<N("Try")>>, <<N("Switch")>>,
         <<nn("Iter", c)>>,
         <<B, t(";"), E("EmptyStatement")>>,
         <<B, t("debugger"), nn("Semi", c), E("DebuggerStatement")>>,
         <<B, t("throw"), NoNL, Nin("Expr"), N("SemiE"), E("ThrowStatement|argument")>> }
       \cup (IF c.r THEN { <<B, t("return"), NUL, N("Semi"), E("ReturnStatement|argument")>>,
                           <<B, t("return"), NoNL, Nin("Expr"), N("SemiE"), E("ReturnStatement|argument")>> } ELSE {})
       \cup (IF c.b THEN { <<B, t("break"), NUL, N("Semi"), E("BreakStatement|label")>> } ELSE {})
       \cup (IF c.k THEN { <<B, t("continue"), NUL, N("Semi"), E("ContinueStatement|label")>> } ELSE {})
       \cup { <<B, t("break"), NoNL>> \o Id(x) \o <<N("Semi"), E("BreakStatement|label")>> : x \in c.l }
       \cup { <<B, t("continue"), NoNL>> \o Id(x) \o <<N("Semi"), E("ContinueStatement|label")>> : x \in c.ll }
       \cup { <<B>> \o Id(x) \o <<t(":"), nn("Labelled", [c EXCEPT !.l = @ \cup {x}, !.pl = @ \cup {x}, !.it = FALSE]), E("LabeledStatement|label|body")>> : x \in IdRefs(c) \ c.l }
       \cup (IF c.s THEN {} ELSE
             { <<B, t("with"), t("("), Nin("Expr"), t(")"), nn("Stmt", Sub(c)), E("WithStatement|object|body")>> })
  [] z = "Labelled" -> { <<N("Stmt")>> } \cup (IF c.s \/ ~c.lf THEN {} ELSE { <<nn("PlainFn", [c EXCEPT !.d = "fn"])>> })
  [] z = "PlainFn" -> { <<B, t("function"), nn("BId", [c EXCEPT !.s = f.s]), nn("FnRest", f), FN("FunctionDeclaration", "false", "false")>> : f \in Forms(FnCtx(c, FALSE, FALSE)) }
  [] z = "Semi" -> { <<t(";")>>, <<gd("must}")>>, <<gd("mustend")>>, <<gd("mustnl"), gd("no;")>> }
  [] z = "SemiE" -> { <<t(";")>>, <<gd("must}")>>, <<gd("mustend")>>, <<gd("mustnl"), gd("cont")>> }
  [] z = "SemiDo" -> { <<t(";")>>, <<gd("no;")>> }
  [] z = "ExprStmt" -> { <<B, gd("exprstmt"), gd(IF c.it THEN "itemlet" ELSE "sublet"), Nin("Expr"), N("SemiE"), E("ExpressionStatement|expression")>> }
  [] z = "Block" -> { <<B, t("{"), so("block"), LB, nn("StmtList", Sub(c)), RB, so("pop"), t("}"), E("BlockStatement|body")>> }
  [] z = "VarStmt" -> { <<B, t("var"), LB, nn("Decls", [c EXCEPT !.d = Xd(c, "var"), !.i = TRUE]), RB, E("VariableDeclaration|declarations|kind=s:var")>> }
  [] z = "LexDecl" -> { <<B, t(kw), LB, nn(IF kw = "const" THEN "DeclsC" ELSE "Decls", [c EXCEPT !.d = Xd(c, "lex"), !.i = TRUE]), RB,
                          E("VariableDeclaration|declarations|kind=s:" \o kw)>> : kw \in {"let", "const"} }
  \* declaration lists end with their semicolon, which belongs to the declaration
  [] z = "Decls" -> { <<B, N("BId"), NUL, E("VariableDeclarator|id|init"), N("DeclsB")>>, <<N("DeclI"), N("DeclsT")>> }
  [] z = "DeclsB" -> { <<N("Semi")>>, <<t(","), N("Decls")>> }

NT10 == {"DeclsT", "DeclsC", "DeclsCT", "DeclI", "If", "Else", "IfBody", "Iter", "OptExpr", "ForInit", "FDecls", "FDeclsT", "FDecl", "FDeclsC"}
Prods10(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "DeclsT" -> { <<N("SemiE")>>, <<t(","), N("Decls")>> }
  [] z = "DeclsC" -> { <<N("DeclI"), N("DeclsCT")>> }
  [] z = "DeclsCT" -> { <<N("SemiE")>>, <<t(","), N("DeclsC")>> }
  [] z = "DeclI" -> { <<B, N("TargetB"), t("="), N("Assign"), E("VariableDeclarator|id|init")>> }
  [] z = "If" -> { <<B, t("if"), t("("), Nin("Expr"), t(")"), nn("IfBody", Sub(c)), N("Else")>> }
  [] z = "Else" -> { <<t("else"), nn("IfBody", Sub(c)), E("IfStatement|test|consequent|alternate")>>,
                     <<NUL, gd("else"), E("IfStatement|test|consequent|alternate")>> }
  [] z = "IfBody" -> { <<N("Stmt")>> } \cup (IF c.s THEN {} ELSE { <<so("block"), nn("PlainFn", [c EXCEPT !.d = "fn"]), so("pop")>> })
  [] z = "Iter" ->
       LET lc == Loop(c) IN
       { <<B, t("while"), t("("), Nin("Expr"), t(")"), nn("Stmt", lc), E("WhileStatement|test|body")>>,
         <<B, t("do"), nn("Stmt", lc), t("while"), t("("), Nin("Expr"), t(")"), N("SemiDo"), E("DoWhileStatement|body|test")>>,
         <<B, t("for"), t("("), so("block"), nn("ForInit", [c EXCEPT !.i = FALSE]), nn("OptExpr", c), t(";"), nn("OptExpr", c), t(")"), nn("Stmt", lc), so("pop"), E("ForStatement|init|test|update|body")>>,
         <<B, t("for"), t("("), so("block"), nn("ForInL", [c EXCEPT !.i = FALSE]), t("in"), Nin("Expr"), t(")"), nn("Stmt", lc), so("pop"), E("ForInStatement|left|right|body")>>,
         <<B, t("for"), t("("), so("block"), nn("ForOfL", [c EXCEPT !.i = FALSE]), t("of"), Nin("Assign"), t(")"), nn("Stmt", lc), so("pop"), E("ForOfStatement|left|right|body|await=b:false")>> }
       \cup (IF c.a THEN {
         <<B, t("for"), t("await"), t("("), so("block"), nn("ForAwL", [c EXCEPT !.i = FALSE]), t("of"), Nin("Assign"), t(")"), nn("Stmt", lc), so("pop"), E("ForOfStatement|left|right|body|await=b:true")>> } ELSE {})
  [] z = "OptExpr" -> { <<NUL>>, <<Nin("Expr")>> }
  [] z = "ForInit" -> { <<NUL, t(";")>>, <<gd("forexpr"), N("Expr"), t(";")>>,
                        <<B, t("var"), LB, nn("FDecls", [c EXCEPT !.d = "var"]), RB, E("VariableDeclaration|declarations|kind=s:var"), t(";")>>,
                        <<B, t("let"), LB, nn("FDecls", [c EXCEPT !.d = "lex"]), RB, E("VariableDeclaration|declarations|kind=s:let"), t(";")>>,
                        <<B, t("const"), LB, nn("FDeclsC", [c EXCEPT !.d = "lex"]), RB, E("VariableDeclaration|declarations|kind=s:const"), t(";")>> }
  [] z = "FDecls" -> { <<N("FDecl"), N("FDeclsT")>> }
  [] z = "FDeclsT" -> { <<>>, <<t(","), N("FDecls")>> }
  [] z = "FDecl" -> { <<B, N("BId"), NUL, E("VariableDeclarator|id|init")>>, <<N("DeclI")>> }
  [] z = "FDeclsC" -> { <<N("DeclI"), N("FDeclsCT")>> }

NT11 == {"FDeclsCT", "ForHeadD", "ForInL", "ForOfL", "ForAwL", "Try", "TryTail", "Finally", "Catch", "Switch", "Cases", "Cases1", "Case", "ModList"}
Prods11(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "FDeclsCT" -> { <<>>, <<t(","), N("FDeclsC")>> }
  [] z = "ForHeadD" -> { <<B, t(kw), LB, B, nn("TargetB", [c EXCEPT !.d = IF kw = "var" THEN "var" ELSE "lex"]), NUL, E("VariableDeclarator|id|init"), RB,
                           E("VariableDeclaration|declarations|kind=s:" \o kw)>> : kw \in {"var", "let", "const"} }
  [] z = "ForInL" -> { <<N("ForHeadD")>>, <<gd("forexpr"), N("TargetA")>> }
                     \cup (IF c.s THEN {} ELSE { <<B, t("var"), LB, B, nn("BId", [c EXCEPT !.d = "var"]), t("="), N("Assign"), E("VariableDeclarator|id|init"), RB, E("VariableDeclaration|declarations|kind=s:var")>> })
  [] z = "ForOfL" -> { <<N("ForHeadD")>>, <<gd("forof"), N("TargetA")>> }
  [] z = "ForAwL" -> { <<N("ForHeadD")>>, <<gd("forawait"), N("TargetA")>> }
  [] z = "Try" -> { <<B, t("try"), nn("Block", Sub(c)), N("TryTail")>> }
  [] z = "TryTail" -> { <<nn("Catch", Sub(c)), N("Finally")>>, <<NUL, t("finally"), nn("Block", Sub(c)), E("TryStatement|block|handler|finalizer")>> }
  [] z = "Finally" -> { <<NUL, E("TryStatement|block|handler|finalizer")>>, <<t("finally"), nn("Block", Sub(c)), E("TryStatement|block|handler|finalizer")>> }
  [] z = "Catch" ->
       LET body == <<B, t("{"), LB, nn("StmtList", c), RB, so("pop"), t("}"), E("BlockStatement|body"), E("CatchClause|param|body")>> IN
       { <<B, t("catch"), NUL, so("block")>> \o body,
         <<B, t("catch"), so("catch"), t("("), nn("BId", [c EXCEPT !.d = "upar"]), t(")")>> \o body,
         <<B, t("catch"), so("catchp"), t("("), nn("PatB", [c EXCEPT !.d = "upar"]), t(")")>> \o body }
  [] z = "Switch" -> { <<B, t("switch"), t("("), Nin("Expr"), t(")"), t("{"), so("block"), LB, nn("Cases", [Sub(c) EXCEPT !.b = TRUE]), RB, so("pop"), t("}"), E("SwitchStatement|discriminant|cases")>> }
  [] z = "Cases" -> { <<>>, <<N("Case"), N("Cases")>>,
                      <<B, t("default"), NUL, t(":"), LB, N("StmtList"), RB, E("SwitchCase|test|consequent"), N("Cases1")>> }
  [] z = "Cases1" -> { <<>>, <<N("Case"), N("Cases1")>> }
  [] z = "Case" -> { <<B, t("case"), Nin("Expr"), t(":"), LB, N("StmtList"), RB, E("SwitchCase|test|consequent")>> }
  (* ------------------------------- modules ------------------------------ *)
  [] z = "ModList" -> { <<>>, <<nn("Item", [c EXCEPT !.pl = {}, !.it = TRUE, !.lf = TRUE]), N("ModList")>>,
                        <<N("Import"), N("ModList")>>, <<N("Export"), N("ModList")>> }

NT12 == {"From", "Str", "Import", "ImpDefault", "ImpNs", "ImpNamed", "ImpSpecs", "ImpSpecsT", "ImpSpec", "ModName", "Export", "ExpSpecs", "ExpSpecsT", "ExpSpec"}
Prods12(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "From" -> { <<t("from"), N("Str"), N("Semi")>> }
  [] z = "Str" -> { <<B, t("'s'"), E("Literal|value=s:s")>> }
  [] z = "Import" ->
       LET fin == E("ImportDeclaration|specifiers|source") IN
       { <<B, t("import"), LB, RB, N("Str"), N("Semi"), fin>>,
         <<B, t("import"), LB, N("ImpDefault"), RB, N("From"), fin>>,
         <<B, t("import"), LB, N("ImpNs"), RB, N("From"), fin>>,
         <<B, t("import"), LB, N("ImpNamed"), RB, N("From"), fin>>,
         <<B, t("import"), LB, N("ImpDefault"), t(","), N("ImpNs"), RB, N("From"), fin>>,
         <<B, t("import"), LB, N("ImpDefault"), t(","), N("ImpNamed"), RB, N("From"), fin>> }
  [] z = "ImpDefault" -> { <<B, nn("BId", [c EXCEPT !.d = "lex"]), E("ImportDefaultSpecifier|local")>> }
  [] z = "ImpNs" -> { <<B, t("*"), t("as"), nn("BId", [c EXCEPT !.d = "lex"]), E("ImportNamespaceSpecifier|local")>> }
  [] z = "ImpNamed" -> { <<t("{"), N("ImpSpecs"), t("}")>> }
  [] z = "ImpSpecs" -> { <<>>, <<N("ImpSpec"), N("ImpSpecsT")>> }
  [] z = "ImpSpecsT" -> { <<>>, <<t(","), N("ImpSpecs")>> }
  [] z = "ImpSpec" -> { <<B, nn("BId", [c EXCEPT !.d = "lex"]), m("D"), E("ImportSpecifier|imported|local")>>,
                        <<B, N("ModName"), t("as"), nn("BId", [c EXCEPT !.d = "lex"]), E("ImportSpecifier|imported|local")>> }
  [] z = "ModName" -> { Id(x) : x \in PropNames }
  [] z = "Export" ->
       LET fin == E("ExportNamedDeclaration|declaration|specifiers|source")
           dfin == E("ExportDefaultDeclaration|declaration")
           xc == [c EXCEPT !.pl = {}, !.it = FALSE, !.lf = FALSE, !.d = "export"] IN
       { <<B, t("export"), t("*"), NUL, N("From"), E("ExportAllDeclaration|exported|source")>>,
         <<B, t("export"), t("*"), t("as"), N("ExpName"), N("From"), E("ExportAllDeclaration|exported|source")>>,
         <<B, t("export"), NUL, LB, t("{"), nn("ExpSpecs", [c EXCEPT !.d = "from"]), t("}"), RB, N("From"), fin>>,
         <<B, t("export"), NUL, LB, t("{"), nn("ExpSpecs", [c EXCEPT !.d = "local"]), t("}"), RB, NUL, N("Semi"), fin>>,
         <<B, t("export"), nn("VarStmt", xc), LB, RB, NUL, fin>>,
         <<B, t("export"), nn("LexDecl", xc), LB, RB, NUL, fin>>,
         <<B, t("export"), nn("FnDecl", xc), LB, RB, NUL, fin>>,
         <<B, t("export"), nn("ClassDecl", xc), LB, RB, NUL, fin>>,
         <<B, t("export"), bi("default", "exp"), gd("expdef"), Nin("Assign"), N("SemiE"), dfin>>,
         <<B, t("export"), bi("default", "exp"), N("DefFn"), dfin>>,
         <<B, t("export"), bi("default", "exp"), N("DefClass"), dfin>> }
  [] z = "ExpSpecs" -> { <<>>, <<N("ExpSpec"), N("ExpSpecsT")>> }
  [] z = "ExpSpecsT" -> { <<>>, <<t(","), N("ExpSpecs")>> }
  [] z = "ExpSpec" ->
       IF c.d = "local" THEN
         UNION { { <<B, B, bi(x, "expboth"), E("Identifier|name=s:" \o x), m("D"), E("ExportSpecifier|local|exported")>>,
                   <<B, B, bi(x, "expref"), E("Identifier|name=s:" \o x), t("as"), N("ExpName"), E("ExportSpecifier|local|exported")>> } : x \in IdRefs(c) }
       ELSE { <<B, N("ExpName"), m("D"), E("ExportSpecifier|local|exported")>>,
              <<B, N("ModName"), t("as"), N("ExpName"), E("ExportSpecifier|local|exported")>> }

NT13 == {"ExpName", "DefFn", "DefClass", "Prog"}
Prods13(sym) ==
  LET c == sym.c
      N(x) == nn(x, c)
      Nin(x) == nn(x, [c EXCEPT !.i = TRUE])
      z == sym.s
  IN
  CASE
     z = "ExpName" -> { <<B, bi(x, "exp"), E("Identifier|name=s:" \o x)>> : x \in PropNames }
  [] z = "DefFn" ->
       UNION { { <<B>> \o h[1] \o nm \o <<nn("FnRest", FnCtx(c, h[2] = "true", h[3] = "true")), FN("FunctionDeclaration", h[2], h[3])>>
                 : nm \in {<<NUL>>, <<nn("BId", [c EXCEPT !.d = "fns"])>>} } : h \in FnHeads }
  [] z = "DefClass" -> { <<B, t("class")>> \o nm \o <<N("ClassTail"), E("ClassDeclaration|id|superClass|body")>>
                         : nm \in {<<NUL>>, <<nn("BId", [c EXCEPT !.d = "lex"])>>} }
  [] z = "Prog" -> IF Mode = "module" THEN { <<B, so("mod"), LB, N("ModList"), RB, so("popmod"), E("Program|body")>> }
                   ELSE { <<B, so("top"), LB>> \o BodyDir(f) \o <<nn("StmtList", BodyCtx(f)), RB, so("pop"), E("Program|body")>> : f \in Forms(c) }

Prods(sym) ==
  CASE sym.s \in NT1 -> Prods1(sym)
    [] sym.s \in NT2 -> Prods2(sym)
    [] sym.s \in NT3 -> Prods3(sym)
    [] sym.s \in NT4 -> Prods4(sym)
    [] sym.s \in NT5 -> Prods5(sym)
    [] sym.s \in NT6 -> Prods6(sym)
    [] sym.s \in NT7 -> Prods7(sym)
    [] sym.s \in NT8 -> Prods8(sym)
    [] sym.s \in NT9 -> Prods9(sym)
    [] sym.s \in NT10 -> Prods10(sym)
    [] sym.s \in NT11 -> Prods11(sym)
    [] sym.s \in NT12 -> Prods12(sym)
    [] sym.s \in NT13 -> Prods13(sym)



=============================================================================
