G='TLA+ derivation machine enumerated by TLC; every word replayed into the real parser'
GN='TLC enumerates the language of the specified grammar fragment (spec/Machine.tla, spec/Ecma.tla, spec/Frags.tla); the harness parses every word over the alphabet up to the bound and requires acceptance and the whole ESTree (types, attributes, ranges) to be the derived ones. Exhaustive within the bounds stated in the evidence; trusts TLC, the harness comparison and the grammar as written in Ecma.tla.'
CHECKS={
 'C01':(G,GN),'C02':(G,GN),'C03':(G,GN),'C04':(G,GN),'C05':(G,GN),'C06':(G,GN),'C09':(G,GN),'C11':(G,GN),'C12':(G,GN),
 'C18':('TLA+ specification of the LRU cache and the ordered map (Lru.tla); TLC enumerates all histories and the replay compares every observation; concurrent histories are checked for linearizability','all histories to a bound and random longer ones; concurrent histories sampled'),
 'C19':('TLA+ specification of the parse cache (ParseCache.tla), TLC enumerates all schedules, replayed into the real cache with a controlled parser','all schedules to a bound, then concurrent requests'),
 'C20':('TLA+ model of the walking algorithm (DirWalk.tla) checked with TLC incl. liveness; recorded walks of real trees are checked as traces against DirTrace.tla','algorithm exhaustive to a bound; recorded traces sampled over trees, workers and stops'),
 'C21':('TLA+ automaton of JSON with comments (Jsonc.tla), TLC enumerates all texts, replayed','all texts to a bound and random longer texts'),
 'C17':('TLA+ semantics of the evaluated expressions (Eval.tla) and of branch selection (Branch.tla); TLC enumerates programs with their values, replayed','all expressions and programs to a bound and random longer ones'),
 'C07':('TLA+ character automata of the literals with their values (Lit.tla), TLC enumerates all texts, replayed at every place for a literal; division or regular expression by the derivation machine','all texts over several alphabets to a bound, random long literals'),
 'C24':('TLA+ specification of the source reader (Source.tla), TLC enumerates texts and histories of reads, replayed','all histories to a bound and random longer ones'),
}
NA={}
NOTES='Each check builds /verif/harness against /repo\'s working tree in a scratch directory, runs TLC on the specification and replays into the real code. Known findings: known-findings.json.'
HOOKS=None
FINDINGS=[
 dict(property='C12',key='names1S: async ( await )',what='async(await) is rejected in a strict script although await is an ordinary name there'),
]
FIXED={
 'the lexer did not terminate on templates with the replacement character or invalid utf-8':'C07 C13',
 'bad hex escapes in tagged templates swallowed the end of the template':'C07',
 'null escapes in templates and octal escapes of strings in interpolations were rejected':'C07',
 'escapes of 8 and 9 were accepted in templates and strict code':'C07',
 'escaped surrogate pairs were replaced by two replacement characters':'C07',
 'strings whose value is empty after line continuations got their text as value':'C07',
 'regular expressions after keywords and divisions after null, true, false and templates were rejected':'C07',
 'decimals with a leading zero were rejected':'C07',
 'regular expressions ended at the wrong slash and unicode escapes were checked without the flag u':'C07',
 'numeric separators after the first digit were rejected':'C07',
 'the parser crashed on unterminated strings in place of property names':'C07 C13',
 'escaped replacement characters and lone surrogates in templates were rejected':'C07',
 'numbers with a leading zero and large hex, octal and binary numbers were converted to wrong values':'C17',
 'the evaluator returned values for unsupported expressions and wrong values of operators':'C17',
 'selecting true branches kept branches behind true tests of the outer if and repeated others':'C17',
 'LRU caches of a capacity below 3 never cleared elements':'C18',
 'keys cleared from LRU caches were still found':'C18',
 'concurrent sets of the same key cleared elements of LRU caches twice':'C18',
 'the directory walker read its queue without the lock':'C20',
 'the directory walker did not return after errors and stops with busy workers and left its workers running':'C20',
 'concurrent and repeated requests to the parse cache were lost, repeated the parse or panicked':'C19',
 'strings ending with an escaped backslash were not ended when removing comments from json':'C21',
 'the directory walker went on to further directories after a stop':'C20',
 'json texts with the replacement character were rejected when removing comments':'C21',
 'async calls with spread arguments were rejected and async a() => b was accepted':'C03',
 'calls after an optional call were marked as optional':'C02',
 'class methods without a name were accepted':'C05',
 'tagged templates were accepted after an optional call':'C02',
 'class fields on the same line were accepted without a semicolon':'C05',
 'converting typed and decorated nodes without line and column crashed':'C13',
 'async and let could not be used as labels':'C04',
 'async arrows and calls were read as statements and async code kept the lexer mode of inner functions':'C03 C11',
 'reserved names were not rejected inside parentheses and object literals':'C01',
 'string literals in template interpolations were converted to quasis':'C07',
 'new.target could not be called, subscripted or used as a tag':'C02',
 'nested new expressions took the arguments of the outer one':'C02',
 'tagged templates started at the template and were not read in new expressions':'C02',
 'property names after a dot started at the white space before them':'C08',
 'array and object literals were accepted as operands of update expressions':'C03',
 'literals and computed keys were accepted as shorthand properties':'C05',
 'nested patterns with default values were not checked as arrow parameters':'C03',
 'shorthand properties with initializers were accepted outside of patterns':'C03',
 'object literals in parentheses lost nested array and object values':'C03',
 'parenthesised and rest member expressions were rejected as assignment targets':'C03',
 'let and const followed by a line break were not read as declarations':'C04',
 'reserved words const and in were accepted as names in sloppy code':'C12',
 'prefix update operators lost their operator when the operand spans several tokens':'C01',
 'binary expression parsing lost the outer precedence after a tighter operator':'C01',
 'classes named eval or arguments were accepted':'C12',
 'arguments in initializers of fields and await in static blocks were accepted':'C11',
 'new.target in computed names of class elements was accepted outside of functions':'C11',
 'code after a block at the start of strict code was scanned as sloppy':'C12',
 'eval and arguments as names of functions which are strict by their directive were accepted':'C12',
 'new.target in nested arrow functions outside of functions was accepted':'C11',
 'return in static blocks was accepted':'C11',
 'await of await was rejected':'C11',
 'use strict after other statements was a directive':'C12',
 'yield was accepted as binding in generators':'C12',
 'legacy octal literal right after use strict was accepted':'C12',
 'AwaitExpression was converted with the members of UnaryExpression':'C05',
 'assignment to eval and arguments in parens was accepted in strict mode':'C12',
 'duplicate parameters of arrow functions and methods were accepted':'C09',
 'duplicate names of exported namespaces were accepted':'C06',
 'redeclarations were not reported consistently':'C09',
 'heads of for statements without required initializers were accepted':'C04',
 'keywords as names of exported namespaces were rejected':'C06',
 'statements on the same line after export default were accepted':'C06',
 'redeclarations by import were not reported':'C09',
 'import declarations were accepted in blocks':'C06',
 'import specifiers without commas were accepted':'C06',
 'import clauses without from were accepted':'C06',
 'labelled functions as bodies were accepted, functions as branches of if in loops were rejected':'C04',
 'continue to the label of a statement which is not a loop was accepted':'C11',
 'break was accepted in a block nested in try outside of loops':'C11',
 'function expressions as callees of new were called first':'C02',
 'third accessor of a private name was accepted':'C05',
 'a method whose parameters start on the next line was not a constructor':'C05',
 'static methods named constructor were constructors':'C05',
 'async as the left operand of in was rejected':'C03',
 'return swallowed the empty statement after it':'C04',
 'declarations were accepted as the body of with':'C04',
 'chains after a new expression lost their optional links':'C02',
 'rest elements outside of patterns were accepted as declarators':'C03',
 'several default clauses separated by a case were accepted in switch':'C04',
}
