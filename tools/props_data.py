PARSE='parser.NewParser(src, opts).Prog() + estree.ConvertProg'
prop('C01','Operator expressions parse to the one tree the ECMAScript grammar gives',
 'A program made of operands, unary, update, binary, logical, coalescing, conditional, sequence and parenthesised expressions is accepted exactly when the ECMAScript grammar derives it, and the ESTree produced for it groups operands by ECMAScript precedence and associativity, with the right node types, operators and source ranges. In particular an unparenthesised unary operand of `**`, and `??` mixed with `||`/`&&` without parentheses, are rejected.',
 ['inputs','programs'],'every token sequence over the operator alphabet, of any length and nesting',
 'The fixture tests compare a few hundred chosen expressions; the number of operator combinations is unbounded, and precedence errors only show when three or more levels meet.',
 ['ecma/parser/parser.go','ecma/parser/token.go','ecma/estree/convert.go'],
 [('precedence climbing','Parser.binExpr'),('precedence table','TokenKinds'),('conversion to ESTree','estree.Convert')],[PARSE])
prop('C02','Member, call, new, optional-chain and tagged-template chains nest correctly',
 'Chains built from property access, computed access, calls, `new`, optional chaining and tagged templates are accepted exactly when the ECMAScript grammar derives them, and the resulting ESTree nests callee, object, arguments, ChainExpression and optional flags as the grammar prescribes, with exact ranges.',
 ['inputs','programs'],'every token sequence over the chain alphabet, any length and nesting',
 'Tests sample single chains; the interaction of new/optional/template/computed access at arbitrary depth is not enumerable by hand.',
 ['ecma/parser/parser.go','ecma/estree/convert.go'],[('member/call loop','Parser.memberExpr, Parser.callExpr, Parser.newExpr')],[PARSE])
prop('C03','Assignment targets, destructuring patterns and arrow parameters are exact',
 'An assignment, update, for-in/of head, declaration, parameter list or arrow function is accepted exactly when its left-hand side is a valid ECMAScript target or pattern, and array/object literals reinterpreted as patterns become ArrayPattern/ObjectPattern/AssignmentPattern/RestElement nodes with the same sub-structure; literals that are not targets stay expressions.',
 ['inputs','programs'],'every token sequence over the pattern alphabet (identifiers, brackets, braces, commas, defaults, rest, =>, =), any nesting',
 'Cover-grammar reinterpretation depends on arbitrarily later tokens (`=` or `=>`); tests check selected literals only.',
 ['ecma/parser/parser.go','ecma/parser/astutil.go'],[('cover grammar conversion','Parser.argToParam, Parser.exprToPat/…'),('simple-target check','Parser.isSimpleLVal')],[PARSE])
prop('C04','Statements and automatic semicolon insertion follow the ECMAScript rules',
 'A sequence of statement tokens and line breaks is accepted exactly when the ECMAScript statement grammar with automatic semicolon insertion accepts it, and it yields the statement structure those rules give (dangling else to the nearest if, restricted productions broken by a newline, no insertion when the next token continues the statement).',
 ['inputs','programs'],'every token sequence over the statement alphabet including line terminators, any length',
 'ASI depends on every pair of adjacent tokens in every statement context; tests sample a few dozen.',
 ['ecma/parser/parser.go','ecma/parser/lexer.go'],[('statement dispatch','Parser.stmt'),('ASI','Parser.advanceIfSemi'),('line terminator tracking','Lexer/Token.afterLineTerm')],[PARSE])
prop('C05','Functions, object members and class members parse to the right kind',
 'Function, arrow, async, generator, object-literal and class member syntax is accepted exactly when ECMAScript allows it, and each member gets the right kind (init/get/set/method/constructor/field), static, async, generator, computed and shorthand attributes, key and value, also when contextual keywords serve as names.',
 ['inputs','programs'],'every token sequence over the member alphabet',
 'The contextual words get/set/static/async and `*` combine with names, newlines and punctuation in many more ways than tests list.',
 ['ecma/parser/parser.go','ecma/estree/convert.go'],[('class element parsing','Parser.classElem'),('property parsing','Parser.propDef')],[PARSE])
prop('C06','Module import and export forms parse to the right declarations',
 'In module mode an import or export token sequence is accepted exactly when ECMAScript allows it at that place (top level only, `from` clause where required, no duplicate exported or unresolved local exports), and specifier, default, namespace and source parts appear in the ESTree as written.',
 ['inputs','programs'],'every token sequence over the import/export alphabet in module and script mode',
 'Tests list forms one by one; combination and duplicate-export errors are a product space.',
 ['ecma/parser/parser.go'],[('import/export parsing','Parser.importDec, Parser.exportDec'),('export checks','Parser.checkExports')],[PARSE])
prop('C07','Literals denote the values ECMAScript gives them',
 'Every numeric, string, template, boolean, null, bigint and regular-expression literal token ECMAScript permits is accepted with exactly its ECMAScript value (numeric value; string value after escapes and line continuations; template cooked text, and raw text as written; regular-expression pattern and flags), and malformed literals are rejected (of regular expressions: those without an end or with unbalanced groups, bad unicode escapes under the flag u and, where their check is switched on, bad flags; the rest of the pattern grammar is not checked by design); `/` is read as division or as a regular expression according to the grammar position.',
 ['inputs'],'every character sequence of literal characters, in every expression position',
 'Literal lexing is an automaton over character strings; tests exercise some paths and mostly compare raw text.',
 ['ecma/parser/lexer.go','ecma/estree/convert.go','ecma/parser/ast.go'],[('literal automata','Lexer.ReadNum, ReadStr, ReadTplSpan, ReadRegexp'),('value decoding','parser.ParseFloat / Text')],[PARSE])
prop('C08','Node positions are exact and layout does not change the tree',
 'For every accepted program the start/end offsets and line/column pairs of every node delimit exactly the tokens of that node, whatever white space, comments, line-break style or multi-byte characters surround them; and re-laying out a program without adding or removing a line break at a place where ECMAScript forbids one changes nothing in the tree but positions.',
 ['inputs','programs'],'every program and every placement of trivia (spaces, tabs, comments, CR/LF/CRLF, U+2028, non-ASCII text) between its tokens',
 'Tests pin positions of fixed texts in one layout.',
 ['span/source.go','ecma/parser/lexer.go','ecma/parser/parser.go','ecma/estree/convert.go'],[('range bookkeeping','Parser.rng/finRng, Source.Ofst'),('line/column recovery','Source.LineCol, OfstLineCol'),('trivia','Lexer.skipSpace, skipComment')],[PARSE])
prop('C09','Redeclaration errors are reported exactly when ECMAScript requires',
 'A program is rejected for a duplicate declaration exactly when two of its declarations (var, let, const, class, function, parameter, catch parameter, import, loop head) conflict under the ECMAScript scoping rules, in script, strict and module code, regardless of nesting and order.',
 ['inputs','programs'],'every nesting and ordering of declarations in blocks, functions, loops, switch and catch clauses',
 'Conflicts depend on pairs of declarations and the whole scope chain between them; tests sample pairs.',
 ['ecma/parser/symtab.go','ecma/parser/parser.go'],[('scope stack and bindings','SymTab.EnterScope/LeaveScope, Scope.AddLocal')],[PARSE])
prop('C10','The symbol table resolves each name to its declaring scope',
 'After parsing, looking a name up from any scope of the program yields the binding of the innermost enclosing scope that declares it under ECMAScript hoisting (var and sloppy function to the function or program scope, lexical declarations, classes, parameters and catch parameters to their own scope), with the right binding kind and declaring node, and nothing when no enclosing scope declares it.',
 ['inputs','programs'],'every program over nested scopes and declarations, every scope and name',
 'Tests check a handful of bindings; resolution quantifies over scope, name and declaration order.',
 ['ecma/parser/symtab.go'],[('scope chain','Scope.Up, Scope.BindingOf'),('hoisting','Scope.AddLocal / hoisting in SymTab')],['Parser.Symtab()'])
prop('C11','Jump and context-dependent constructs are accepted only where legal',
 'break, continue, labels, return, await, yield, super, new.target and arguments-like context words are accepted exactly in the contexts where ECMAScript allows them: break/continue need an enclosing target within the same function, continue targets a loop label, labels are unique along the nesting, and await/yield/super/new.target follow the nearest function or class context.',
 ['inputs','programs'],'every nesting of functions, arrows, methods, classes, static blocks, loops, switches, labels and blocks',
 'Legality depends on the whole stack of enclosing constructs; tests sample shallow stacks.',
 ['ecma/parser/parser.go','ecma/parser/symtab.go'],[('scope kinds','ScopeKind flags SPK_*'),('label table','Scope.AddLabel')],[PARSE])
prop('C12','Strict-mode restrictions apply exactly in strict code',
 'Code is treated as strict exactly when a module, a class body or an effective "use strict" directive of it or an enclosing function makes it so; strict-only errors (legacy octal, with, delete of a name, assignment to or binding of eval/arguments, reserved words, duplicate parameters) are raised in strict code and not in sloppy code.',
 ['inputs','programs'],'every nesting of directives, functions, classes and restricted constructs, in script and module mode',
 'Strictness is retroactive (directive after parameters, names and earlier directives) and inherited; tests sample flat cases.',
 ['ecma/parser/parser.go','ecma/parser/lexer.go'],[('directive prologue','Parser.stmts/directive handling'),('strict flag per scope','SPK_STRICT')],[PARSE])
prop('C13','Parsing is total, deterministic and reports errors inside the source',
 'For every input string and every feature selection, parsing and ESTree conversion terminate without panicking, give the same result when repeated, and on failure return an error whose position lies within the source.',
 ['inputs','configurations'],'every byte string, every feature selection',
 'Tests feed curated inputs; malformed, truncated and non-UTF-8 inputs are unbounded.',
 ['ecma/parser/lexer.go','ecma/parser/parser.go','ecma/estree/convert.go','span/source.go'],[('error propagation','Parser errors'),('EOF handling','Lexer')],[PARSE])
prop('C14','Feature switches gate exactly their own syntax',
 'Turning a parser feature off makes the parser reject (or read under its older meaning) exactly the syntax that feature adds and leaves every program that does not use it with an unchanged tree; turning it on only adds programs.',
 ['configurations','programs'],'every single feature and pair of features, every program of the grammar',
 'Tests turn a few features off on a few programs.',
 ['ecma/parser/feature.go','ecma/parser/parser.go'],[('feature tests','Parser.feat & FEAT_*')],[PARSE])
prop('C15','AST traversal visits every node once, in order, with matching scopes',
 'Walking any parsed program fires, for each node, one enter and one leave event, properly nested like the tree and in source order of children, with the scope active at each event equal to the scope the symbol table assigns to that node; stopping suppresses all later events and overriding a visitor affects only that node type.',
 ['inputs','programs','histories'],'every program and every set of registered listeners/visitors',
 'Tests walk a few programs and look at a few node types; the visitor is 4000 generated lines, one arm per node type.',
 ['ecma/walk/visitor.go','ecma/walk/ctx.go'],[('visitor tables','walk.VisitNode, walk.VisitorImpl'),('scope tracking','WalkCtx.PushScope/PopScope')],['walk.VisitNode with listeners'])
prop('C16','The control-flow graph admits every execution and marks only dead code dead',
 'For every function or program, every possible execution order of its statements and short-circuit operands (branches, loops, switch fallthrough, labelled jumps, returns, throws, try/catch/finally) is a path of the control-flow graph, and a node is reported unreachable exactly when no execution path leads to it.',
 ['programs','histories'],'every structured program and every sequence of branch outcomes',
 'Tests compare a fixed set of graphs as text.',
 ['ecma/analysis/ctrlflow.go','ecma/analysis/graph.go'],[('block construction','Analysis.Analyze'),('edge tags and cuts','Block/Edge')],['analysis.NewAnalysis(...).Analyze(); Graph()'])
prop('C17','Constant evaluation agrees with JavaScript whenever it gives an answer',
 'When the expression evaluator reports success for an expression under given variable values, the value equals the one JavaScript computes; branch selection based on it keeps exactly the branch JavaScript would take.',
 ['inputs','programs'],'every expression of the supported operators over literals and variables',
 'Tests evaluate a dozen expressions.',
 ['ecma/exec/vm.go','ecma/astutil/astutil.go'],[('evaluator','exec.ExprEvaluator'),('branch selection','astutil.SelectTrueBranches')],['exec.NewExprEvaluator(...).Exec'])
prop('C18','LRU cache and ordered map behave as their sequential models',
 'The LRU cache answers every operation sequence as a bounded map: it returns the last value set for a key that is still cached, never holds more than its capacity once trimmed, and evicts least recently stored keys first; the ordered map iterates live keys in insertion order and returns the last value set.',
 ['histories'],'every sequence of Set/Get/HasKey/Remove/iterate operations and every capacity',
 'No unit tests exist for these containers.',
 ['util/lru.go','util/map.go'],[('list+dict','LruCache'),('list+dict','OrderedMap')],['util.LruCache, util.OrderedMap API'])
prop('C19','Concurrent parse-cache requests all get the file\'s one parse result',
 'Any number of concurrent or repeated requests for the same file through the parse cache all complete, return the parse of that file, and cause it to be parsed once while it stays cached.',
 ['schedules','histories'],'every interleaving of requests for the same and different files',
 'Requires specific interleavings of check and store.',
 ['parseutil','util/lru.go'],[('future store','ParseCache.Parse')],['parseutil.ParseCache API'])
prop('C20','The directory walker handles every matching file once and terminates',
 'A directory walk calls its handler exactly once for every regular file and directory it should cover, reports read errors, and returns after all handlers finished, for every tree shape and worker count; after a stop request it returns without deadlock and starts no further handlers than those already scheduled.',
 ['schedules','inputs'],'every directory tree, every degree of concurrency, every interleaving, stop requests at any point',
 'Tests walk one fixture directory.',
 ['util/walkdir.go'],[('work queue','DirWalker')],['util.DirWalker API'])
prop('C21','JSON comment stripping changes only comments',
 'Removing comments from a JSON-with-comments text leaves every character outside comments unchanged and in order, including comment-like text and escapes inside strings, so the result decodes to the same value; a comment leaves white space behind, and a comma that only white space separates from a closing bracket is replaced by a space.',
 ['inputs'],'every JSON text with comments between tokens, strings of any escapes',
 'Tests try four texts.',
 ['util/str.go'],[('automaton','RemoveJsonComments')],['util.RemoveJsonComments'])
prop('C22','TypeScript syntax parses to the right types and erases cleanly',
 'With TypeScript enabled, type annotations, generics, unions, intersections, arrays, function, conditional and tuple types are accepted and produce the type tree their precedence gives, and the JavaScript part of the tree is the same as for the program with the type syntax removed.',
 ['inputs','programs'],'every type expression at every annotation position',
 'Tests sample annotations one at a time; `<`, `(`, `=>`, `?` and `:` are ambiguous with JavaScript and resolved by backtracking.',
 ['ecma/parser/ts.go','ecma/parser/ts_ast.go','ecma/estree/ts_convert.go'],[('type grammar','Parser.tsTyp...'),('backtracking','Lexer.PushState/PopState')],[PARSE])
prop('C23','JSX elements parse to matching trees',
 'With JSX enabled, an element, fragment, attribute, spread, expression container or text sequence is accepted exactly when tags match and the JSX grammar derives it, and names (namespaced, member, hyphenated), attributes, children and decoded text appear in the tree as written; `<` in operator position stays the less-than operator.',
 ['inputs','programs'],'every token sequence over the JSX alphabet, any nesting',
 'Tests sample elements.',
 ['ecma/parser/jsx.go','ecma/parser/jsx_ast.go'],[('element parsing','Parser.jsx'),('lexer modes','LM_JSX...')],[PARSE])
prop('C24','The source reader is a faithful cursor over the text',
 'Reading, peeking, conditional advance, space skipping and save/restore/discard on a source behave as a cursor over its characters: line breaks are unified, offsets count bytes, positions count characters, restoring returns to exactly the saved point, and line/column of an offset equals counting line breaks before it.',
 ['inputs','histories'],'every text (valid or invalid UTF-8) and every sequence of reader operations',
 'Tests drive three scripted sequences.',
 ['span/source.go'],[('state stack','Source.PushState/PopState/DiscardState')],['span.Source API'])
