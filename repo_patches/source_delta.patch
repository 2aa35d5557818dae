From 803cc0f17b19fc8674a475b306ea95c9a8350217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:25 +0000
Subject: [PATCH 01/84] fix: binary expression parsing lost the outer
 precedence after a tighter operator

a || b * c + d was grouped as (a || b * c) + d because the precedence of
the inner operator overwrote the one of the operator being parsed.
---
 ecma/parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 259d5c8..9addf5b 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5499,8 +5499,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
 		for aheadOp != T_ILLEGAL && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
-			pcd = kind.Pcd
-			rhs, err = p.binExpr(rhs, pcd, logic, nullish, notGT, false)
+			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, false)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From a768c3f9feb09b66597b28bcecaf4e9c0e38a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:54 +0000
Subject: [PATCH 02/84] fix: prefix update operators lost their operator when
 the operand spans several tokens

---
 ecma/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9addf5b..f69111b 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4361,6 +4361,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 	rng := p.rng()
 	tok := p.lexer.Peek()
 	if tok.value == T_INC || tok.value == T_DEC {
+		op := tok.value
 		p.lexer.Next()
 		arg, err := p.unaryExpr(nil, span.Range{}, notColon)
 		if err != nil {
@@ -4369,7 +4370,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		if !p.isSimpleLVal(arg, true, false, true, false) {
 			return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 		}
-		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), tok.value, true, arg, span.Range{}}
+		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), op, true, arg, span.Range{}}
 		arg, err = p.tsTypAssert(ud, typArgs)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 3044e3246ff93b296fc0c2c6077e7c02244eccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:24 +0000
Subject: [PATCH 03/84] fix: reserved words const and in were accepted as names
 in sloppy code

---
 ecma/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index f69111b..ab4a4da 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3273,6 +3273,10 @@ func (p *Parser) isProhibitedName(scope *Scope, name string, withStrict bool, lV
 	if scope == nil {
 		scope = p.scope()
 	}
+	// `const` and `in` are scanned as names but they are always reserved
+	if name == "const" || name == "in" {
+		return true
+	}
 	strict := withStrict && (scope.IsKind(SPK_STRICT) || forceStrict)
 	_, ok := prohibitedNames[name]
 	if strict && ok {
@@ -5704,7 +5708,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
-		if p.checkName && ahead.value != T_ARROW && !ahead.afterLineTerm && p.isProhibitedName(nil, name, true, false, false, false) {
+		if p.checkName && ahead.value != T_ARROW && p.isProhibitedName(nil, name, true, false, false, false) {
 			if tok.ContainsEscape() {
 				return nil, p.errorAtLoc(p.finRng(loc), ERR_ESCAPE_IN_KEYWORD)
 			}
-- 
2.43.0


From 632dfed213791e6ae445617f1a55dda452ba7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:59 +0000
Subject: [PATCH 04/84] fix: let and const followed by a line break were not
 read as declarations

---
 ecma/parser/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index ab4a4da..eaa2243 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3126,7 +3126,14 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 		// - `let a`
 		ahead := p.lexer.PeekGrow()
 		av := ahead.value
-		if !ahead.afterLineTerm && (av == T_NAME ||
+		// - `let in a`, the `let` is a name
+		if IsName(ahead, "in", true) {
+			return v == T_CONST, v
+		}
+		// the line terminator after `let` only matters in the position where the declaration is not permitted:
+		// `if (a) let \n b`, even so `let \n [` is still the start of the declaration
+		asi := ahead.afterLineTerm && v == T_LET && av != T_BRACKET_L && p.scope().IsKind(SPK_INTERIM)
+		if !asi && (av == T_NAME ||
 			(av > T_CTX_KEYWORD_BEGIN && av < T_CTX_KEYWORD_END) ||
 			av == T_BRACE_L || av == T_BRACKET_L) {
 			return true, v
-- 
2.43.0


From 396de4d3e9d5c96c71d9fd5bcda19bfc5dea5436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:43 +0000
Subject: [PATCH 05/84] fix: parenthesised and rest member expressions were
 rejected as assignment targets

---
 ecma/parser/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index eaa2243..4cfcf77 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4177,7 +4177,7 @@ func (p *Parser) isSimpleLVal(expr Node, pat bool, inParen bool, member bool, op
 		return member
 	case N_EXPR_PAREN:
 		node := expr.(*ParenExpr)
-		return p.isSimpleLVal(node.expr, pat, true, false, optAssign)
+		return p.isSimpleLVal(node.expr, pat, true, member, optAssign)
 	case N_EXPR_BIN:
 		node := expr.(*BinExpr)
 		return node.op == T_TS_AS
@@ -5114,6 +5114,8 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 			if _, err := p.argToParam(n.arg, depth, prop, destruct, inParen); err != nil {
 				return nil, err
 			}
+		} else if at == N_EXPR_MEMBER && destruct {
+			// `[...a.b] = c` is legal
 		} else if at == N_EXPR_ASSIGN {
 			return nil, p.errorAtLoc(n.arg.Range(), ERR_REST_CANNOT_SET_DEFAULT)
 		} else if at == N_EXPR_PAREN {
@@ -5158,8 +5160,10 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		return rest, nil
 	case N_EXPR_PAREN:
 		sub := arg.(*ParenExpr).expr
-		if !destruct || !p.isPrimitive(sub) && !p.isTsLhs(sub) {
-			st := sub.Type()
+		st := sub.Type()
+		// `(a.b) = 1` and `((a)) = 1` are legal
+		simple := p.isPrimitive(sub) || p.isTsLhs(sub) || st == N_EXPR_MEMBER || st == N_EXPR_PAREN
+		if !destruct || !simple {
 			if !(destruct && st == N_EXPR_BIN && sub.(*BinExpr).op == T_TS_AS) {
 				if st != N_LIT_ARR && st != N_LIT_OBJ && st != N_NAME {
 					return nil, p.errorAtLoc(sub.Range(), ERR_ASSIGN_TO_RVALUE)
-- 
2.43.0


From 01ef466809568057b3e2c66a162c7126658f6a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:18 +0000
Subject: [PATCH 06/84] fix: object literals in parentheses lost nested array
 and object values

---
 ecma/parser/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 4cfcf77..763b0bb 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4995,7 +4995,9 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		}
 		return n, nil
 	case N_PROP:
-		n := arg.(*Prop)
+		// work on a copy since `arg` is still used as an expr if it turns out to not be a param: `({ a: [b] })`
+		cp := *arg.(*Prop)
+		n := &cp
 		var err error
 		if n.value != nil {
 			if n.value.Type() == N_EXPR_FN && depth > 0 {
@@ -5092,7 +5094,8 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 	case N_PAT_REST:
 		return arg, nil
 	case N_SPREAD:
-		n := arg.(*Spread)
+		cp := *arg.(*Spread)
+		n := &cp
 		if !n.tcLoc.Empty() {
 			return nil, p.errorAtLoc(n.tcLoc, ERR_REST_ELEM_MUST_LAST)
 		}
-- 
2.43.0


From 052bea4b65cf170af9ee9bfbae4896e378710fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:10 +0000
Subject: [PATCH 07/84] fix: shorthand properties with initializers were
 accepted outside of patterns

---
 ecma/parser/parser.go | 62 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 763b0bb..79d7c81 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -60,6 +60,10 @@ type Parser struct {
 	postCmts map[Node][]span.Range
 
 	errTypArgMissingGT ErrTypArgMissingGT
+
+	// the `=` of the shorthand props with initializer like `({ a = 1 })` which have not
+	// been resolved as the parts of patterns, identified by their offsets
+	coverInits map[uint32]span.Range
 }
 
 type ParserOpts struct {
@@ -135,6 +139,7 @@ func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
 	p.tryStk = []Node{}
 	p.prevCmts = map[Node][]span.Range{}
 	p.postCmts = map[Node][]span.Range{}
+	p.coverInits = map[uint32]span.Range{}
 
 	p.lexer = NewLexer(src)
 	p.lexer.ver = opts.Version
@@ -241,9 +246,54 @@ func (p *Parser) Prog() (Node, error) {
 		return nil, err
 	}
 
+	if err := p.checkCoverInits(); err != nil {
+		return nil, err
+	}
+
 	return pg, nil
 }
 
+// reports the shorthand props with initializer which are not in patterns: `[{ a = 1 }].b`
+func (p *Parser) checkCoverInits() error {
+	var first span.Range
+	for _, rng := range p.coverInits {
+		if first.Empty() || rng.Lo < first.Lo {
+			first = rng
+		}
+	}
+	if !first.Empty() {
+		return p.errorAtLoc(first, ERR_SHORTHAND_PROP_ASSIGN_NOT_IN_DESTRUCT)
+	}
+	return nil
+}
+
+// the `node` is known as pattern
+func (p *Parser) resolveCoverInits(node Node) {
+	if len(p.coverInits) == 0 || node == nil {
+		return
+	}
+	switch n := node.(type) {
+	case *ArrPat:
+		for _, elem := range n.elems {
+			p.resolveCoverInits(elem)
+		}
+	case *ObjPat:
+		for _, prop := range n.props {
+			p.resolveCoverInits(prop)
+		}
+	case *Prop:
+		if n.assign {
+			delete(p.coverInits, n.opLoc.Lo)
+		} else {
+			p.resolveCoverInits(n.value)
+		}
+	case *AssignPat:
+		p.resolveCoverInits(n.lhs)
+	case *RestPat:
+		p.resolveCoverInits(n.arg)
+	}
+}
+
 func (p *Parser) resolvingDanglingPvtRefs() error {
 	for _, ref := range p.danglingPvtRefs {
 		if ref.Typ == RDT_PVT_FIELD {
@@ -2361,6 +2411,7 @@ func (p *Parser) forStmt() (Node, error) {
 				if init, err = p.argToParam(init, 0, false, true, false); err != nil {
 					return nil, err
 				}
+				p.resolveCoverInits(init)
 			} else if !p.isSimpleLVal(init, true, false, true, false) {
 				return nil, p.errorAtLoc(init.Range(), ERR_ASSIGN_TO_RVALUE)
 			}
@@ -2662,6 +2713,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			if err != nil {
 				return nil, err
 			}
+			for _, param := range params {
+				p.resolveCoverInits(param)
+			}
 		}
 
 		paramNames, firstComplicated, err = p.collectNames(params)
@@ -4136,6 +4190,7 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 	if err != nil {
 		return nil, err
 	}
+	p.resolveCoverInits(lhs)
 
 	if checkLhs && !p.isSimpleLVal(lhs, true, false, true, op != T_ASSIGN) {
 		return nil, p.errorAtLoc(lhs.Range(), ERR_ASSIGN_TO_RVALUE)
@@ -5818,6 +5873,10 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 	scope := p.symtab.EnterScope(true, true, true)
 	p.incRetsStk()
 
+	for _, param := range params {
+		p.resolveCoverInits(param)
+	}
+
 	paramNames, firstComplicated, err := p.collectNames(params)
 	if err != nil {
 		return nil, err
@@ -6149,6 +6208,9 @@ func (p *Parser) propData() (Node, error) {
 	}
 
 	shorthand := assign
+	if assign {
+		p.coverInits[opLoc.Lo] = opLoc
+	}
 	if value == nil && key.Type() == N_NAME {
 		id := key.(*Ident)
 		name := id.val
-- 
2.43.0


From 391c2428f840373fe35ec3af328c0cbd06b73fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:55 +0000
Subject: [PATCH 08/84] fix: nested patterns with default values were not
 checked as arrow parameters

---
 ecma/parser/parser.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 79d7c81..6ad14cf 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5145,8 +5145,36 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 			}
 			return nil, p.errorAtLoc(id.rng, fmt.Sprintf(et, name))
 		}
+		// `([(a)] = b) => c` is illegal
+		if !destruct && !id.OuterParen().Empty() {
+			return nil, p.errorAtLoc(id.OuterParen(), ERR_INVALID_PAREN_ASSIGN_PATTERN)
+		}
 		return arg, nil
+	case N_PAT_ARRAY:
+		// the checks are same as the ones described in `N_PAT_OBJ`, `([a.b] = c) => d` is illegal
+		n := arg.(*ArrPat)
+		for _, elem := range n.elems {
+			if elem == nil {
+				continue
+			}
+			if _, err := p.argToParam(elem, depth+1, false, destruct, inParen); err != nil {
+				return nil, err
+			}
+		}
+		return n, nil
+	case N_PAT_ASSIGN:
+		n := arg.(*AssignPat)
+		if _, err := p.argToParam(n.lhs, depth+1, prop, destruct, inParen); err != nil {
+			return nil, err
+		}
+		if err := p.checkDefaultVal(n.rhs, destruct, destruct, false); err != nil {
+			return nil, err
+		}
+		return n, nil
 	case N_PAT_REST:
+		if _, err := p.argToParam(arg.(*RestPat).arg, depth+1, prop, destruct, inParen); err != nil {
+			return nil, err
+		}
 		return arg, nil
 	case N_SPREAD:
 		cp := *arg.(*Spread)
-- 
2.43.0


From 898caf67784987a18d9982dc8fa98d0dc2501de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:19 +0000
Subject: [PATCH 09/84] fix: literals and computed keys were accepted as
 shorthand properties

---
 ecma/parser/parser.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 6ad14cf..2cf84ff 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"errors"
 	"fmt"
+	"math"
 
 	span "github.com/hsiaosiyuan0/mole/span"
 )
@@ -61,9 +62,9 @@ type Parser struct {
 
 	errTypArgMissingGT ErrTypArgMissingGT
 
-	// the `=` of the shorthand props with initializer like `({ a = 1 })` which have not
-	// been resolved as the parts of patterns, identified by their offsets
-	coverInits map[uint32]span.Range
+	// the errors of the shorthand props with initializer like `({ a = 1 })` which have not
+	// been resolved as the parts of patterns, identified by the offsets of their `=`
+	coverInits map[uint32]*ParserError
 }
 
 type ParserOpts struct {
@@ -139,7 +140,7 @@ func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
 	p.tryStk = []Node{}
 	p.prevCmts = map[Node][]span.Range{}
 	p.postCmts = map[Node][]span.Range{}
-	p.coverInits = map[uint32]span.Range{}
+	p.coverInits = map[uint32]*ParserError{}
 
 	p.lexer = NewLexer(src)
 	p.lexer.ver = opts.Version
@@ -255,14 +256,14 @@ func (p *Parser) Prog() (Node, error) {
 
 // reports the shorthand props with initializer which are not in patterns: `[{ a = 1 }].b`
 func (p *Parser) checkCoverInits() error {
-	var first span.Range
-	for _, rng := range p.coverInits {
-		if first.Empty() || rng.Lo < first.Lo {
-			first = rng
+	first := uint32(math.MaxUint32)
+	for ofst := range p.coverInits {
+		if ofst < first {
+			first = ofst
 		}
 	}
-	if !first.Empty() {
-		return p.errorAtLoc(first, ERR_SHORTHAND_PROP_ASSIGN_NOT_IN_DESTRUCT)
+	if err, ok := p.coverInits[first]; ok {
+		return err
 	}
 	return nil
 }
@@ -3775,6 +3776,10 @@ func (p *Parser) patternProp() (Node, error) {
 
 	shorthand := false
 	if value == nil {
+		if key.Type() != N_NAME || !compute.Empty() {
+			// only the name can be the shorthand: `let { 1 } = a` is illegal
+			return nil, p.errorTok(tok)
+		}
 		value = key
 		shorthand = true
 	}
@@ -6222,7 +6227,8 @@ func (p *Parser) propData() (Node, error) {
 	var value Node
 	tok := p.lexer.Peek()
 	opLoc := tok.rng
-	assign := tok.value == T_ASSIGN
+	tokVal := tok.value
+	assign := tokVal == T_ASSIGN
 	if tok.value == T_COLON || assign {
 		p.lexer.Next()
 		value, err = p.assignExpr(true, false, false, false)
@@ -6237,16 +6243,21 @@ func (p *Parser) propData() (Node, error) {
 
 	shorthand := assign
 	if assign {
-		p.coverInits[opLoc.Lo] = opLoc
+		p.coverInits[opLoc.Lo] = p.errorAtLoc(opLoc, ERR_SHORTHAND_PROP_ASSIGN_NOT_IN_DESTRUCT)
 	}
-	if value == nil && key.Type() == N_NAME {
+	if value == nil && key.Type() != N_NAME || assign && (key.Type() != N_NAME || !compute.Empty()) {
+		// only the name can be the shorthand: `({ 1 })` is illegal
+		p.coverInits[key.Range().Lo] = p.errorAt(tokVal, opLoc, "")
+	} else if value == nil || assign {
 		id := key.(*Ident)
 		name := id.val
 		if id.kw && name != "eval" && name != "arguments" {
 			return nil, p.errorAtLoc(id.rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, id.val))
 		}
-		shorthand = true
-		value = key
+		if value == nil {
+			shorthand = true
+			value = key
+		}
 	}
 	return &Prop{N_PROP, p.finRng(loc), key, opLoc, value, !compute.Empty(), false, shorthand, assign, PK_INIT, ACC_MOD_NONE}, nil
 }
-- 
2.43.0


From 5f7e0cb1c380cd051e6476fe31296e230ad23873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:26 +0000
Subject: [PATCH 10/84] fix: array and object literals were accepted as
 operands of update expressions

---
 ecma/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 2cf84ff..0acdb54 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4438,7 +4438,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		if err != nil {
 			return nil, err
 		}
-		if !p.isSimpleLVal(arg, true, false, true, false) {
+		if !p.isSimpleLVal(arg, false, false, true, false) {
 			return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 		}
 		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), op, true, arg, span.Range{}}
@@ -4478,7 +4478,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		return arg, nil
 	}
 
-	if !p.isSimpleLVal(arg, true, false, true, false) {
+	if !p.isSimpleLVal(arg, false, false, true, false) {
 		return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 	}
 
-- 
2.43.0


From e31ebda96d7ef6afb25fba9454b16277c995be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:10 +0000
Subject: [PATCH 11/84] fix: property names after a dot started at the white
 space before them

---
 ecma/parser/lexer.go  | 4 ++--
 ecma/parser/parser.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index bcd7e56..ef20702 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -233,7 +233,7 @@ func (l *Lexer) Rng() span.Range {
 		rng.Lo = tok.rng.Lo
 		rng.Hi = rng.Lo
 	} else {
-		rng.Lo = l.src.Pos()
+		rng.Lo = l.src.Ofst()
 		rng.Hi = rng.Lo
 	}
 	return rng
@@ -243,7 +243,7 @@ func (l *Lexer) FinRng(rng span.Range) span.Range {
 	if l.state.prtVal != T_ILLEGAL {
 		rng.Hi = l.state.prtRng.Hi
 	} else {
-		rng.Hi = l.src.Pos()
+		rng.Hi = l.src.Ofst()
 	}
 	return rng
 }
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0acdb54..68e61f2 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5737,8 +5737,8 @@ func (p *Parser) memberExprPropSubscript(obj Node, opt bool) (Node, error) {
 }
 
 func (p *Parser) memberExprPropDot(obj Node, opt bool) (Node, error) {
-	loc := p.rng()
 	tok := p.lexer.Next()
+	loc := tok.rng
 	tv := tok.value
 	kw, ok := tok.CanBePropKey()
 
-- 
2.43.0


From e1f564b3f6884293cc1b390f2b1cac9030e1dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:43 +0000
Subject: [PATCH 12/84] fix: tagged templates started at the template and were
 not read in new expressions

---
 ecma/estree/convert.go |  4 ++--
 ecma/parser/ast.go     |  6 ++++++
 ecma/parser/parser.go  | 18 ++++++++++++++++--
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 11284d3..5d46fc7 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -1335,7 +1335,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 					End:            int(locWithTag.Hi),
 					Loc:            locOfRng(locWithTag, ctx.Parser.Source(), ctx),
 					Tag:            Convert(tpl.Tag(), ctx),
-					Quasi:          tplLiteral(tpl.Range(), tpl.Elems(), ctx),
+					Quasi:          tplLiteral(tpl.QuasiRange(), tpl.Elems(), ctx),
 					TypeParameters: typArgs(ti, ctx),
 				}
 			}
@@ -1346,7 +1346,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 			End:   int(locWithTag.Hi),
 			Loc:   locOfRng(locWithTag, ctx.Parser.Source(), ctx),
 			Tag:   Convert(tpl.Tag(), ctx),
-			Quasi: tplLiteral(tpl.Range(), tpl.Elems(), ctx),
+			Quasi: tplLiteral(tpl.QuasiRange(), tpl.Elems(), ctx),
 		}
 	case parser.N_STMT_IMPORT:
 		stmt := node.(*parser.ImportDec)
diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index 5f3421f..b7d3d89 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -893,10 +893,16 @@ type TplExpr struct {
 	typ   NodeType
 	rng   span.Range
 	tag   Node
+	quasi span.Range
 	elems []Node
 	opa   span.Range
 }
 
+// range of the template without its tag
+func (n *TplExpr) QuasiRange() span.Range {
+	return n.quasi
+}
+
 func (n *TplExpr) Tag() Node {
 	return n.tag
 }
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 68e61f2..1329883 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4588,7 +4588,7 @@ func (p *Parser) newExpr() (Node, error) {
 		// ```
 		// new C``
 		// ```
-		if len(args) == 0 && p.lexer.Peek().value == T_TPL_HEAD {
+		if args == nil && p.lexer.Peek().value == T_TPL_HEAD {
 			if wt, ok := expr.(NodeWithTypInfo); ok {
 				wt.SetTypInfo(ti)
 			}
@@ -4616,6 +4616,10 @@ func (p *Parser) newExpr() (Node, error) {
 			if ret, _, err = p.memberExpr(ret, true, root, optLoc); err != nil {
 				return nil, err
 			}
+		} else if tv == T_TPL_HEAD {
+			if ret, err = p.tplExpr(ret, false); err != nil {
+				return nil, err
+			}
 		} else {
 			break
 		}
@@ -4895,7 +4899,12 @@ func (p *Parser) tplExpr(tag Node, ts bool) (Node, error) {
 		}
 	}
 
-	return &TplExpr{N_EXPR_TPL, p.finRng(rng), tag, elems, span.Range{}}, nil
+	quasi := p.finRng(rng)
+	rng = quasi
+	if tag != nil {
+		rng.Lo = tag.Range().Lo
+	}
+	return &TplExpr{N_EXPR_TPL, rng, tag, quasi, elems, span.Range{}}, nil
 }
 
 func (p *Parser) argsToParams(args []Node) ([]Node, error) {
@@ -5684,6 +5693,11 @@ func (p *Parser) memberExpr(obj Node, call bool, root bool, optLoc span.Range) (
 			if obj, err = p.memberExprPropDot(obj, false); err != nil {
 				return nil, span.Range{}, err
 			}
+		} else if tv == T_TPL_HEAD && !call {
+			// the tagged template is a part of the callee: new a.b`c`
+			if obj, err = p.tplExpr(obj, false); err != nil {
+				return nil, span.Range{}, err
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From 091ef81d40e4f9afa4e5c6cccebf8e612513ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:50 +0000
Subject: [PATCH 13/84] fix: nested new expressions took the arguments of the
 outer one

---
 ecma/parser/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1329883..18ae50a 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4497,7 +4497,7 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 	var node Node
 	var err error
 	if tok.value == T_NEW {
-		node, err = p.newExpr()
+		node, err = p.newExpr(false)
 	} else {
 		node, _, err = p.callExpr(nil, true, false, span.Range{}, notColon)
 	}
@@ -4515,7 +4515,9 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-NewExpression
-func (p *Parser) newExpr() (Node, error) {
+// `callee` indicates the newExpr is the callee of the other newExpr, the args and accessors follow
+// it should be processed by the outer one: `new new a()()`
+func (p *Parser) newExpr(callee bool) (Node, error) {
 	rng := p.rng()
 	new := p.lexer.Next()
 
@@ -4601,6 +4603,9 @@ func (p *Parser) newExpr() (Node, error) {
 
 	var ret Node
 	ret = &NewExpr{N_EXPR_NEW, p.finRng(rng), expr, args, span.Range{}, ti}
+	if callee {
+		return ret, nil
+	}
 	root := true
 	for {
 		tok := p.lexer.Peek()
@@ -5651,7 +5656,7 @@ func (p *Parser) memberExpr(obj Node, call bool, root bool, optLoc span.Range) (
 	var err error
 	if obj == nil {
 		if p.lexer.Peek().value == T_NEW {
-			if obj, err = p.newExpr(); err != nil {
+			if obj, err = p.newExpr(true); err != nil {
 				return nil, span.Range{}, err
 			}
 		} else if obj, err = p.memberExprObj(); err != nil {
-- 
2.43.0


From d60c1b6d99bf2bbf9257af39138f954c21efc262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:19 +0000
Subject: [PATCH 14/84] fix: new.target could not be called, subscripted or
 used as a tag

---
 ecma/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 18ae50a..10dea7a 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4544,7 +4544,11 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 		}
 
 		expr = &MetaProp{N_META_PROP, p.finRng(rng), meta, id}
-		return expr, nil
+		if callee {
+			return expr, nil
+		}
+		expr, _, err = p.callExpr(expr, true, false, span.Range{}, false)
+		return expr, err
 	}
 
 	var optLoc span.Range
-- 
2.43.0


From 58b21e74c5e070b39d590d4542cc58364e696e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:30 +0000
Subject: [PATCH 15/84] fix: string literals in template interpolations were
 converted to quasis

---
 ecma/estree/convert.go | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 5d46fc7..e3e6f41 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -147,28 +147,9 @@ func tplLiteral(tplLoc span.Range, elems []parser.Node, ctx *ConvertCtx) *Templa
 	exprs := make([]Expression, 0)
 	cnt := len(elems)
 	for i, elem := range elems {
-		first := i == 0
 		last := i == cnt-1
-		if elem.Type() != parser.N_LIT_STR {
-			if first || last {
-				lc := locOfRng(tplLoc, ctx.Parser.Source(), ctx)
-				if first {
-					lc.End.Column = lc.Start.Column
-				} else {
-					lc.Start.Column = lc.End.Column
-				}
-				quasis = append(quasis, &TemplateElement{
-					Type:  "TemplateElement",
-					Start: int(tplLoc.Lo),
-					End:   int(tplLoc.Hi),
-					Loc:   lc,
-					Tail:  last,
-					Value: &TemplateElementValue{
-						Cooked: "",
-						Raw:    "",
-					},
-				})
-			}
+		// the quasis and the interpolated expressions are interleaved, the latter can be strings too: `${"a"}`
+		if i%2 == 1 {
 			exprs = append(exprs, Convert(elem, ctx))
 		} else {
 			str := elem.(*parser.StrLit)
-- 
2.43.0


From 6f3a497ab8b765ef6f422cce6588d96bcff6cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:22 +0000
Subject: [PATCH 16/84] fix: reserved names were not rejected inside
 parentheses and object literals

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 10dea7a..62da211 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5833,7 +5833,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
-		if p.checkName && ahead.value != T_ARROW && p.isProhibitedName(nil, name, true, false, false, false) {
+		if ahead.value != T_ARROW && p.isProhibitedName(nil, name, true, false, false, false) {
 			if tok.ContainsEscape() {
 				return nil, p.errorAtLoc(p.finRng(loc), ERR_ESCAPE_IN_KEYWORD)
 			}
-- 
2.43.0


From 4a222cbf04b68ba5622dc52a73015e48026b8667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:29 +0000
Subject: [PATCH 17/84] fix: async arrows and calls were read as statements and
 async code kept the lexer mode of inner functions

---
 ecma/parser/parser.go | 150 ++++++++++++++++++++----------------------
 1 file changed, 70 insertions(+), 80 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 62da211..9fd1c28 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -441,7 +441,7 @@ func (p *Parser) stmt() (node Node, err error) {
 		if allowDec {
 			node, err = p.varDecStmt(kind, false)
 		}
-	} else if p.aheadIsAsync(tok, false, false) {
+	} else if p.aheadIsAsyncFn(tok) {
 		if tok.ContainsEscape() {
 			return nil, p.errorAt(tok.value, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 		}
@@ -490,7 +490,8 @@ func (p *Parser) stmt() (node Node, err error) {
 		if scope.IsKind(SPK_INTERIM) {
 			// `if (morning) function a(){}` is legal
 			// `for (morning;;) function a(){}` is illegal
-			if typ == N_STMT_FN && (scope.IsKind(SPK_STRICT) || scope.IsKind(SPK_LOOP_DIRECT)) {
+			// `if (morning) async function a(){}` and `if (morning) function* a(){}` are illegal
+			if typ == N_STMT_FN && (scope.IsKind(SPK_STRICT) || scope.IsKind(SPK_LOOP_DIRECT) || node.(*FnDec).async || node.(*FnDec).generator) {
 				return nil, p.errorAtLoc(node.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
 			} else if typ == N_STMT_IMPORT || typ == N_STMT_EXPORT {
 				return nil, p.errorAtLoc(node.Range(), ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL)
@@ -540,7 +541,7 @@ func (p *Parser) exportDec() (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-	} else if p.aheadIsAsync(tok, false, false) {
+	} else if p.aheadIsAsyncFn(tok) {
 		if tok.ContainsEscape() {
 			return nil, p.errorAt(tv, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 		}
@@ -559,7 +560,7 @@ func (p *Parser) exportDec() (Node, error) {
 		tv = tok.value
 		if tv == T_FUNC {
 			node.dec, err = p.fnDec(false, nil, true)
-		} else if p.aheadIsAsync(tok, false, false) {
+		} else if p.aheadIsAsyncFn(tok) {
 			if tok.ContainsEscape() {
 				return nil, p.errorAt(tv, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 			}
@@ -2542,7 +2543,7 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 		}
 		if ahead.value == T_FUNC ||
 			(p.aheadIsArgList(ahead) && !prop) ||
-			ahead.value == T_MUL {
+			(ahead.value == T_MUL && prop) {
 			return true
 		}
 		_, canProp := ahead.CanBePropKey()
@@ -2562,6 +2563,11 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 	return false
 }
 
+// whether the input starts an async function, others like `async a => {}` and `async()` are expressions
+func (p *Parser) aheadIsAsyncFn(tok *Token) bool {
+	return p.aheadIsAsync(tok, false, false) && p.lexer.Peek2nd().value == T_FUNC
+}
+
 // https://tc39.es/ecma262/multipage/ecmascript-language-statements-and-declarations.html#prod-HoistableDeclaration
 func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, error) {
 	rng := p.rng()
@@ -2586,8 +2592,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 
 	tok = p.lexer.Peek()
-	generator := tok.value == T_MUL
-	genLoc := tok.rng
+	generator := fn && tok.value == T_MUL
 	if generator {
 		if async != nil && p.feat&FEAT_ASYNC_GENERATOR == 0 {
 			return nil, p.errorTok(tok)
@@ -2633,6 +2638,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 
 	scope := p.symtab.EnterScope(true, false, true)
+	// the mode of the lexer is restored when the function is ended
+	mode := p.lexer.CurMode().kind
+	p.lexer.EraseMode(LM_ASYNC)
 	if async != nil {
 		scope.AddKind(SPK_ASYNC)
 		p.lexer.AddMode(LM_ASYNC)
@@ -2667,10 +2675,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			return nil, err
 		}
 		if typArgs != nil && typArgs.Type() != N_TS_PARAM_INST {
-			if err := p.advanceIfSemi(true); err != nil {
-				return nil, err
-			}
-			return &ExprStmt{N_STMT_EXPR, p.finRng(rng), typArgs, false}, nil
+			return typArgs, nil
 		}
 	}
 
@@ -2683,10 +2688,6 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		ti.SetTypAnnot(typAnnot)
 	}
 
-	if generator {
-		p.lexer.AddMode(LM_GENERATOR)
-	}
-
 	tok = p.lexer.Peek()
 	arrow := false
 	var arrowLoc span.Range
@@ -2706,7 +2707,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	var params []Node
 	var paramNames []Node
 	var firstComplicated span.Range
-	if fn || tok.value == T_BRACE_L || arrow {
+	if fn || arrow {
 		if fn {
 			params = args
 		} else {
@@ -2736,8 +2737,16 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			if body, err = p.fnBody(); err != nil {
 				return nil, err
 			}
-		} else if expr || arrow {
-			if body, err = p.expr(); err != nil {
+			if arrow {
+				if _, err := p.isExprOpening(true); err != nil {
+					return nil, err
+				}
+			}
+		} else if arrow {
+			if ps.IsKind(SPK_NOT_IN) {
+				scope.AddKind(SPK_NOT_IN)
+			}
+			if body, err = p.assignExpr(true, false, false, false); err != nil {
 				return nil, err
 			}
 		} else if fn && !expr && tok.value == T_FUNC && tok.afterLineTerm && p.ts {
@@ -2753,63 +2762,32 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		} else {
 			return nil, p.errorTok(tok)
 		}
-	} else if async != nil {
+	} else if id == nil {
 		// this branch means the input is callExpr like:
 		// `async ({a: b = c})` callExpr
-		// `async* ({a: b = c})` binExpr
 		lhs := &Ident{N_NAME, asyncLoc, "async", false, asyncHasEscape, span.Range{}, true, p.newTypInfo(N_NAME)}
 
-		var exp Node
-		if generator {
-			var rhs Node
-			argsLen := len(args)
-			if argsLen == 0 {
-				return nil, p.errorTok(tok)
-			} else if argsLen == 1 {
-				rhs = args[0]
-			} else {
-				rhs = &SeqExpr{N_EXPR_SEQ, p.finRng(rng), args, span.Range{}}
-			}
-			exp = &BinExpr{N_EXPR_BIN, p.finRng(rng), T_MUL, genLoc, lhs, rhs, span.Range{}}
-		} else {
-			if err := p.checkArgs(args, false, true); err != nil {
-				return nil, err
-			}
-			ti := p.newTypInfo(N_EXPR_CALL)
-			if ti != nil {
-				// typArgs is produced by `argList` in this branch, so it's required
-				// to do a typeParam to typeArg transformation
-				if err = p.tsCheckTypArgs(typArgs); err != nil {
-					return nil, err
-				}
-				ti.SetTypArgs(typArgs)
-			}
-			exp = &CallExpr{N_EXPR_CALL, p.finRng(rng), lhs, args, false, span.Range{}, ti}
+		p.symtab.LeaveScope()
+		p.decRetsStk()
+		p.lexer.CurMode().kind = mode
+		if err := p.checkArgs(args, true, true); err != nil {
+			return nil, err
 		}
-
-		if !expr {
-			binExpr, err := p.binExpr(exp, 0, false, false, false, false)
-			if err != nil {
-				return nil, err
-			}
-
-			seq, err := p.seqExpr(binExpr, false)
-			if err != nil {
-				return nil, err
-			}
-			if err = p.advanceIfSemi(true); err != nil {
+		ti := p.newTypInfo(N_EXPR_CALL)
+		if ti != nil {
+			// typArgs is produced by `argList` in this branch, so it's required
+			// to do a typeParam to typeArg transformation
+			if err = p.tsCheckTypArgs(typArgs); err != nil {
 				return nil, err
 			}
-			return &ExprStmt{N_STMT_EXPR, p.finRng(rng), seq, false}, nil
+			ti.SetTypArgs(typArgs)
 		}
-		return exp, nil
+		return &CallExpr{N_EXPR_CALL, p.finRng(rng), lhs, args, false, span.Range{}, ti}, nil
 	} else {
 		return nil, p.errorTok(tok)
 	}
 
-	if generator {
-		p.lexer.PopMode()
-	}
+	p.lexer.CurMode().kind = mode
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
@@ -2861,13 +2839,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	if arrow {
 		fn := &ArrowFn{N_EXPR_ARROW, p.finRng(rng), arrowLoc, async != nil, params, body, body.Type() != N_STMT_BLOCK, p.decRetsStk(), span.Range{}, ti}
 		s.Node = fn
-		if expr {
-			return fn, nil
-		}
-		if err := p.advanceIfSemi(true); err != nil {
-			return nil, err
-		}
-		return &ExprStmt{N_STMT_EXPR, p.finRng(rng), fn, false}, nil
+		return fn, nil
 	}
 
 	typ := N_STMT_FN
@@ -4275,7 +4247,7 @@ func (p *Parser) condExpr(test Node, notGT bool, notHook bool, notColon bool) (N
 	}
 	rng := test.Range()
 
-	if notHook {
+	if notHook || test.Type() == N_EXPR_ARROW {
 		return test, nil
 	}
 
@@ -4330,6 +4302,9 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 			}
 			return nil, p.errorTok(ahead)
 		}
+		if scope.IsKind(SPK_ASYNC) && !scope.IsKind(SPK_FORMAL_PARAMS) {
+			return nil, p.errorTok(ahead)
+		}
 		return &Ident{N_NAME, p.finRng(rng), "await", false, tok.ContainsEscape(), span.Range{}, true, p.newTypInfo(N_NAME)}, nil
 	}
 
@@ -4700,6 +4675,10 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 		if err != nil {
 			return nil, span.Range{}, err
 		}
+		// an arrow function can only be called when it is in parens
+		if callee.Type() == N_EXPR_ARROW {
+			return callee, span.Range{}, nil
+		}
 		callee = p.tsNoNull(callee)
 	} else {
 		rng = callee.Range()
@@ -5576,6 +5555,11 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		}
 	}
 
+	// an arrow function can only be an operand when it is in parens
+	if lhs.Type() == N_EXPR_ARROW {
+		return lhs, nil
+	}
+
 	ts := p.ts
 	notIn := p.scope().IsKind(SPK_NOT_IN)
 	for {
@@ -5833,7 +5817,9 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
-		if ahead.value != T_ARROW && p.isProhibitedName(nil, name, true, false, false, false) {
+		// `await` in `async (await)` is only illegal if it is followed by `=>`, which is reported by `argsToParams`
+		awaitArg := name == "await" && p.scope().IsKind(SPK_FORMAL_PARAMS)
+		if ahead.value != T_ARROW && !awaitArg && p.isProhibitedName(nil, name, true, false, false, false) {
 			if tok.ContainsEscape() {
 				return nil, p.errorAtLoc(p.finRng(loc), ERR_ESCAPE_IN_KEYWORD)
 			}
@@ -5927,6 +5913,8 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 	arrowLoc := p.lexer.Next().rng
 	ps := p.scope()
 	scope := p.symtab.EnterScope(true, true, true)
+	mode := p.lexer.CurMode().kind
+	p.lexer.EraseMode(LM_ASYNC)
 	p.incRetsStk()
 
 	for _, param := range params {
@@ -5984,6 +5972,7 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 		return nil, err
 	}
 
+	p.lexer.CurMode().kind = mode
 	s := p.symtab.LeaveScope()
 	n := &ArrowFn{N_EXPR_ARROW, p.finRng(rng), arrowLoc, false, params, body, body.Type() != N_STMT_BLOCK, p.decRetsStk(), span.Range{}, ti}
 	s.Node = n
@@ -6365,6 +6354,13 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		ctor = true
 	}
 
+	// the mode of the lexer is restored when the method is ended
+	mode := p.lexer.CurMode().kind
+	p.lexer.EraseMode(LM_ASYNC)
+	if async {
+		p.lexer.AddMode(LM_ASYNC)
+	}
+
 	fnLoc := p.rng()
 	params, typParams, _, err := p.paramList(false, kind, true)
 	if err != nil {
@@ -6410,10 +6406,6 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		}
 	}
 
-	if gen {
-		p.lexer.AddMode(LM_GENERATOR)
-	}
-
 	var body Node
 	ahead := p.lexer.Peek()
 	opt := false
@@ -6422,13 +6414,11 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 			return nil, p.errorAtLoc(rng, ERR_ABSTRACT_METHOD_WITH_IMPL)
 		}
 		body, err = p.fnBody()
-		if gen {
-			p.lexer.EraseMode(LM_GENERATOR)
-		}
 		if err != nil {
 			return nil, err
 		}
 	}
+	p.lexer.CurMode().kind = mode
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
@@ -6570,7 +6560,7 @@ func (p *Parser) nameOfNode(node Node) string {
 func (p *Parser) isExprOpening(raise bool) (*Token, error) {
 	tok := p.lexer.PeekStmtBegin()
 	tv := tok.value
-	if raise && tv != T_SEMI && tv != T_BRACE_R && tv != T_COMMA && tv != T_PAREN_R && tv != T_COLON && !tok.afterLineTerm && tv != T_EOF {
+	if raise && tv != T_SEMI && tv != T_BRACE_R && tv != T_COMMA && tv != T_PAREN_R && tv != T_COLON && tv != T_BRACKET_R && tv != T_TPL_SPAN && tv != T_TPL_TAIL && !tok.afterLineTerm && tv != T_EOF {
 		errMsg := ERR_UNEXPECTED_TOKEN
 		if tok.value == T_ILLEGAL {
 			if msg, ok := tok.ext.(string); ok {
-- 
2.43.0


From 1ec33e1e6914e39012ca78a6c5d5137d7d4b8d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:02 +0000
Subject: [PATCH 18/84] fix: async and let could not be used as labels

---
 ecma/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9fd1c28..527cc9c 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1982,7 +1982,7 @@ func (p *Parser) retStmt() (Node, error) {
 
 func (p *Parser) aheadIsLabel(tok *Token) bool {
 	if tok.value == T_NAME {
-		ahead := p.lexer.PeekGrow()
+		ahead := p.lexer.Peek2nd()
 		return ahead.value == T_COLON
 	}
 	return false
@@ -3151,7 +3151,7 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 		// an additional lookahead is needed to judge the various:
 		// - `let + 1`
 		// - `let a`
-		ahead := p.lexer.PeekGrow()
+		ahead := p.lexer.Peek2nd()
 		av := ahead.value
 		// - `let in a`, the `let` is a name
 		if IsName(ahead, "in", true) {
-- 
2.43.0


From 51e23418fefee7207b6eba75e208e4486bb1e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:40 +0000
Subject: [PATCH 19/84] fix: converting typed and decorated nodes without line
 and column crashed

---
 ecma/estree/convert.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index e3e6f41..84822df 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -340,7 +340,9 @@ func locWithTypeInfo(node parser.Node, includeParamProp bool, s *span.Source, ct
 
 	firstRng, firstLoc := FirstLoc(s, ctx, starLocList...)
 	rng.Lo = firstRng.Lo
-	loc.Start = firstLoc.Start
+	if loc != nil {
+		loc.Start = firstLoc.Start
+	}
 
 	endLocList := []span.Range{}
 	if ti.TypAnnot() != nil {
@@ -350,14 +352,16 @@ func locWithTypeInfo(node parser.Node, includeParamProp bool, s *span.Source, ct
 
 	endRng, endLoc := LastLoc(s, ctx, endLocList...)
 	rng.Hi = endRng.Hi
-	loc.End = endLoc.End
+	if loc != nil {
+		loc.End = endLoc.End
+	}
 
 	return
 }
 
 func TplLocWithTag(n *parser.TplExpr, s *span.Source, ctx *ConvertCtx) *SrcLoc {
 	loc := CalcLoc(n, s, ctx)
-	if n.Tag() != nil {
+	if loc != nil && n.Tag() != nil {
 		tl := CalcLoc(n.Tag(), s, ctx)
 		loc.Start = tl.Start
 		loc.End = tl.End
@@ -408,7 +412,9 @@ func locWithDecorator(node parser.Node, ds []parser.Node, s *span.Source, ctx *C
 	}
 	d := ds[0]
 	dLoc := locOfNode(d, s, ctx)
-	loc.Start = dLoc.Start
+	if loc != nil {
+		loc.Start = dLoc.Start
+	}
 	rng.Lo = d.Range().Lo
 	return
 }
-- 
2.43.0


From 93d3f3770e95d4e34dd73ea639f39c9b5b6ed67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:08 +0000
Subject: [PATCH 20/84] fix: class fields on the same line were accepted
 without a semicolon

---
 ecma/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 527cc9c..996bc58 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1712,6 +1712,9 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 		}
 		return p.method(rng, key, accMod, compute, false, PK_METHOD, false, false, true, true, !static.Empty(), beginLoc, !declare.Empty(), !abstract.Empty(), !override.Empty(), ti)
 	}
+	if ahead := p.lexer.Peek(); ahead.value != T_SEMI && ahead.value != T_BRACE_R && !ahead.afterLineTerm {
+		return nil, p.errorTok(ahead)
+	}
 	p.advanceIfSemi(false)
 
 	if p.ts && !compute.Empty() && ti.typAnnot != nil {
@@ -1727,11 +1730,12 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 	}
 
 	if value != nil {
+		checkName := p.checkName
 		p.checkName = true
 		if err := p.checkDefaultVal(value, false, false, true); err != nil {
 			return nil, err
 		}
-		p.checkName = false
+		p.checkName = checkName
 
 		if p.ts {
 			if inDeclare || !declare.Empty() || p.scope().IsKind(SPK_TS_DECLARE) {
-- 
2.43.0


From c9720e7b309ec08e9e0992991c0d302243107c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:08 +0000
Subject: [PATCH 21/84] fix: tagged templates were accepted after an optional
 call

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 996bc58..4f17e00 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4762,6 +4762,9 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 				firstOpt = fo
 			}
 		} else if tv == T_TPL_HEAD {
+			if !firstOpt.Empty() {
+				return nil, span.Range{}, p.errorAtLoc(tok.rng, ERR_OPT_EXPR_IN_TAG)
+			}
 			callee, err = p.tplExpr(callee, false)
 			if err != nil {
 				return nil, span.Range{}, err
-- 
2.43.0


From b65c7229dad56836afa5ddb1af7a7bbe4cab527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:02 +0000
Subject: [PATCH 22/84] fix: class methods without a name were accepted

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 4f17e00..51086bb 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1544,6 +1544,9 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 		}
 		return p.method(beginLoc, nil, accMod, span.Range{}, false, PK_METHOD, false, true, true, true, static, beginLoc, declare, abstract, override, nil)
 	} else if p.aheadIsArgList(ahead) {
+		if fieldName == "" {
+			return nil, p.errorTok(ahead)
+		}
 		key := &Ident{N_NAME, fieldLoc, fieldName, false, escape, span.Range{}, true, p.newTypInfo(N_STMT_CLASS)}
 		return p.method(beginLoc, key, accMod, span.Range{}, false, PK_METHOD, false, false, false, true, false, beginLoc, false, false, false, nil)
 	} else if ahead.value == T_MUL {
-- 
2.43.0


From 089b0ab3f8ab88f6a1c3c54687455df762c4fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:09 +0000
Subject: [PATCH 23/84] fix: calls after an optional call were marked as
 optional

---
 ecma/parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 51086bb..2543a73 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4755,6 +4755,8 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 				}
 			} else {
 				callee = &CallExpr{N_EXPR_CALL, p.finRng(rng), callee, args, directOpt, span.Range{}, ti}
+				// only the first call is the operand of `?.`
+				directOpt = false
 			}
 		} else if tv == T_BRACKET_L || tv == T_DOT || tv == T_OPT_CHAIN {
 			callee, fo, err = p.memberExpr(callee, true, root, firstOpt)
-- 
2.43.0


From 57c7d413e473b6e16d180ac638c499b3139ef814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:53 +0000
Subject: [PATCH 24/84] fix: async calls with spread arguments were rejected
 and async a() => b was accepted

---
 ecma/parser/parser.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 2543a73..8635ca7 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2660,6 +2660,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 
 	var args []Node
 	var typArgs Node
+	var tailingComma span.Range
 	ahead := p.lexer.Peek()
 	if id != nil && ahead.value == T_ARROW && !ahead.afterLineTerm {
 		// async a => {}
@@ -2670,12 +2671,15 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		if err != nil {
 			return nil, err
 		}
+	} else if id != nil {
+		// only `=>` can follow `async a`
+		return nil, p.errorTok(ahead)
 	} else {
 		// the arg check is skipped here, the correctness of args is guaranteed by
 		// below `argsToFormalParams`
 		p.checkName = false
 		scope.AddKind(SPK_FORMAL_PARAMS)
-		args, _, typArgs, _, err = p.argList(false, false, asyncLoc, false)
+		args, tailingComma, typArgs, _, err = p.argList(false, true, asyncLoc, false)
 		scope.EraseKind(SPK_FORMAL_PARAMS)
 		p.checkName = true
 		if err != nil {
@@ -2718,6 +2722,17 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		if fn {
 			params = args
 		} else {
+			// `async (...a, b)` and `async (...a,)` are legal as callExpr however they are illegal as params
+			for i, arg := range args {
+				if arg.Type() != N_SPREAD {
+					continue
+				}
+				if i < len(args)-1 {
+					return nil, p.errorAtLoc(arg.Range(), ERR_REST_ELEM_MUST_LAST)
+				} else if !tailingComma.Empty() {
+					return nil, p.errorAtLoc(tailingComma, ERR_REST_ELEM_MUST_LAST)
+				}
+			}
 			params, err = p.argsToParams(args)
 			if err != nil {
 				return nil, err
@@ -2769,7 +2784,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		} else {
 			return nil, p.errorTok(tok)
 		}
-	} else if id == nil {
+	} else {
 		// this branch means the input is callExpr like:
 		// `async ({a: b = c})` callExpr
 		lhs := &Ident{N_NAME, asyncLoc, "async", false, asyncHasEscape, span.Range{}, true, p.newTypInfo(N_NAME)}
@@ -2790,8 +2805,6 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			ti.SetTypArgs(typArgs)
 		}
 		return &CallExpr{N_EXPR_CALL, p.finRng(rng), lhs, args, false, span.Range{}, ti}, nil
-	} else {
-		return nil, p.errorTok(tok)
 	}
 
 	p.lexer.CurMode().kind = mode
-- 
2.43.0


From 68567d35109c7633eeba76ef674b5b83c335515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:07 +0000
Subject: [PATCH 25/84] fix: rest elements outside of patterns were accepted as
 declarators

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 8635ca7..473cdf4 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3280,6 +3280,9 @@ func (p *Parser) varDec(lexical bool) (*VarDec, error) {
 		scope.AddKind(SPK_LEXICAL_DEC)
 	}
 
+	if tok := p.lexer.Peek(); tok.value == T_DOT_TRI {
+		return nil, p.errorTok(tok)
+	}
 	binding, err := p.bindingPattern()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ba8b8ebb15176d3beca0431a8a6f46e9b432a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:14 +0000
Subject: [PATCH 26/84] fix: chains after a new expression lost their optional
 links

---
 ecma/parser/parser.go | 29 ++---------------------------
 1 file changed, 2 insertions(+), 27 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 473cdf4..32013a9 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4608,33 +4608,8 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 	if callee {
 		return ret, nil
 	}
-	root := true
-	for {
-		tok := p.lexer.Peek()
-		tv := tok.value
-		if p.aheadIsArgList(tok) {
-			if ret, _, err = p.callExpr(ret, root, false, span.Range{}, false); err != nil {
-				return nil, err
-			}
-		} else if tv == T_BRACKET_L || tv == T_DOT || tv == T_OPT_CHAIN {
-			if tv == T_OPT_CHAIN {
-				optLoc = tok.rng
-			}
-			if ret, _, err = p.memberExpr(ret, true, root, optLoc); err != nil {
-				return nil, err
-			}
-		} else if tv == T_TPL_HEAD {
-			if ret, err = p.tplExpr(ret, false); err != nil {
-				return nil, err
-			}
-		} else {
-			break
-		}
-		if root {
-			root = false
-		}
-	}
-	return ret, nil
+	ret, _, err = p.callExpr(ret, true, false, span.Range{}, false)
+	return ret, err
 }
 
 func (p *Parser) checkCallee(callee Node, nextLoc span.Range) error {
-- 
2.43.0


From e0b5cce3022ec5c70802c7d6b00219e34670257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:21 +0000
Subject: [PATCH 27/84] fix: declarations were accepted as the body of with

---
 ecma/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 32013a9..112a323 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1799,14 +1799,20 @@ func (p *Parser) withStmt() (Node, error) {
 		return nil, err
 	}
 
+	scope := p.scope()
 	tok := p.lexer.PeekStmtBegin()
+	scope.AddKind(SPK_INTERIM)
 	body, err := p.stmt()
+	scope.EraseKind(SPK_INTERIM)
 	if err != nil {
 		if err == errEof {
 			return nil, p.errorTok(tok)
 		}
 		return nil, err
 	}
+	if body.Type() == N_STMT_FN {
+		return nil, p.errorAtLoc(body.Range(), ERR_UNEXPECTED_TOKEN)
+	}
 
 	if p.scope().IsKind(SPK_STRICT) {
 		return nil, p.errorAtLoc(p.finRng(rng), ERR_WITH_STMT_IN_STRICT)
-- 
2.43.0


From a9052ea3950db3faa3d065684e5475d2f8bfe584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:28 +0000
Subject: [PATCH 28/84] fix: return swallowed the empty statement after it

---
 ecma/parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 112a323..d690e64 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1981,8 +1981,10 @@ func (p *Parser) retStmt() (Node, error) {
 		}
 	}
 
-	if err := p.advanceIfSemi(!closed); err != nil {
-		return nil, err
+	if !closed {
+		if err := p.advanceIfSemi(true); err != nil {
+			return nil, err
+		}
 	}
 
 	scope := p.scope()
-- 
2.43.0


From 678aa788a8ca29dac7018160a07d81b443bb9d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:35 +0000
Subject: [PATCH 29/84] fix: async as the left operand of in was rejected

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index d690e64..6a354d1 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2569,7 +2569,7 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 			return true
 		}
 		if ahead.value == T_NAME {
-			if p.scope().IsKind(SPK_NOT_IN) && (IsName(ahead, "in", false) || IsName(ahead, "of", false)) {
+			if IsName(ahead, "in", false) || p.scope().IsKind(SPK_NOT_IN) && IsName(ahead, "of", false) {
 				return false
 			}
 			return true
-- 
2.43.0


From 931300206ee4593d7f68e90c3da1081133087505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:42 +0000
Subject: [PATCH 30/84] fix: static methods named constructor were constructors

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 6a354d1..18bd566 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1595,7 +1595,7 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 		kd := PK_INIT
 		if p.aheadIsArgList(ahead) {
 			kd = PK_METHOD
-			if name == "constructor" {
+			if name == "constructor" && !static {
 				kd = PK_CTOR
 			}
 
-- 
2.43.0


From 5ca869986c64b20cf00762c589171b58951990ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:49 +0000
Subject: [PATCH 31/84] fix: a method whose parameters start on the next line
 was not a constructor

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 18bd566..a100627 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3822,7 +3822,7 @@ func (p *Parser) isField(static bool, getter bool) (bool, *Token) {
 		return isField, ahead
 	}
 
-	return ahead.afterLineTerm, ahead
+	return ahead.afterLineTerm && av != T_PAREN_L, ahead
 }
 
 func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (Node, span.Range, error) {
-- 
2.43.0


From 021e9e3f7f3223f7c5252baafd2fe91a0a91f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:55 +0000
Subject: [PATCH 32/84] fix: third accessor of a private name was accepted

---
 ecma/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a100627..ffa46ae 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1317,7 +1317,11 @@ func (p *Parser) classBody(declare bool, hasSuper bool) (Node, error) {
 				}
 			}
 			if elem.Type() == N_FIELD || elem.(*Method).HasBody() {
-				pvtNames[name] = elem
+				if _, ok := pvtNames[name]; ok {
+					pvtNames[name] = nil
+				} else {
+					pvtNames[name] = elem
+				}
 
 				ref := NewRef()
 				ref.Id = key.(*Ident)
-- 
2.43.0


From d0c4a7f57fb8ee4204e206333d5d7182d1321427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:44 +0000
Subject: [PATCH 33/84] fix: function expressions as callees of new were called
 first

---
 ecma/parser/parser.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index ffa46ae..d8a0fe3 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2885,14 +2885,6 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 	s.Node = fnDec
 
-	if expr && p.lexer.Peek().value == T_PAREN_L {
-		node, _, err := p.callExpr(fnDec, true, false, span.Range{}, false)
-		if err != nil {
-			return nil, err
-		}
-		return node, nil
-	}
-
 	if !expr && p.ts {
 		if body == nil {
 			p.lastTsFnSig = fnDec
-- 
2.43.0


From 8740e1716c5fdb104ef2f00f124f17a0b556c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:50 +0000
Subject: [PATCH 34/84] fix: break was accepted in a block nested in try
 outside of loops

---
 ecma/parser/symtab.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 050e26f..4cdeb22 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -536,7 +536,7 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 			scope.Kind |= SPK_SWITCH_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_TRY) || s.Cur.IsKind(SPK_TRY_INDIRECT) {
-			scope.Kind |= SPK_SWITCH_INDIRECT
+			scope.Kind |= SPK_TRY_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_FORMAL_PARAMS) {
 			scope.Kind |= SPK_FORMAL_PARAMS
-- 
2.43.0


From 397c97e65ec7caf028d4b4299f7bd912195daebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:09 +0000
Subject: [PATCH 35/84] fix: continue to the label of a statement which is not
 a loop was accepted

---
 ecma/parser/ast.go    |  1 +
 ecma/parser/parser.go | 19 ++++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index b7d3d89..99f3029 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -1723,6 +1723,7 @@ type LabelStmt struct {
 	label Node
 	body  Node
 	used  bool
+	cont  span.Range // the label in the `continue` which targets this statement
 }
 
 func (n *LabelStmt) Type() NodeType {
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index d8a0fe3..78e085f 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2024,7 +2024,7 @@ func (p *Parser) labelStmt() (Node, error) {
 		return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_DUP_LABEL, labelName))
 	}
 
-	node := &LabelStmt{N_STMT_LABEL, span.Range{}, label, nil, false}
+	node := &LabelStmt{N_STMT_LABEL, span.Range{}, label, nil, false, span.Range{}}
 	scope.uniqueLabels[labelName] = node
 	scope.Labels = append(scope.Labels, node)
 
@@ -2037,8 +2037,20 @@ func (p *Parser) labelStmt() (Node, error) {
 
 	node.rng = p.finRng(rng)
 	node.body = body
-	// reset to check next label chain
-	scope.uniqueLabels = make(map[string]Node)
+	// the label is only visible in its body
+	delete(scope.uniqueLabels, labelName)
+
+	if !node.cont.Empty() {
+		// skip the other labels of the chain
+		for body.Type() == N_STMT_LABEL {
+			body = body.(*LabelStmt).body
+		}
+		switch body.Type() {
+		case N_STMT_FOR, N_STMT_FOR_IN_OF, N_STMT_WHILE, N_STMT_DO_WHILE:
+		default:
+			return nil, p.errorAtLoc(node.cont, ERR_ILLEGAL_CONTINUE)
+		}
+	}
 	return node, nil
 }
 
@@ -2104,6 +2116,7 @@ func (p *Parser) contStmt() (Node, error) {
 			return nil, p.errorAtLoc(label.rng, fmt.Sprintf(ERR_UNDEF_LABEL, label.val))
 		} else {
 			target.(*LabelStmt).used = true
+			target.(*LabelStmt).cont = label.rng
 		}
 
 		return &ContStmt{N_STMT_CONT, p.finRng(rng), label, target}, nil
-- 
2.43.0


From 67f49a5e26b390b5106028a517154774acb341b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:06 +0000
Subject: [PATCH 36/84] fix: labelled functions as bodies were accepted,
 functions as branches of if in loops were rejected

---
 ecma/parser/parser.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 78e085f..aa16e8d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -491,7 +491,7 @@ func (p *Parser) stmt() (node Node, err error) {
 			// `if (morning) function a(){}` is legal
 			// `for (morning;;) function a(){}` is illegal
 			// `if (morning) async function a(){}` and `if (morning) function* a(){}` are illegal
-			if typ == N_STMT_FN && (scope.IsKind(SPK_STRICT) || scope.IsKind(SPK_LOOP_DIRECT) || node.(*FnDec).async || node.(*FnDec).generator) {
+			if typ == N_STMT_FN && (scope.IsKind(SPK_STRICT) || node.(*FnDec).async || node.(*FnDec).generator) {
 				return nil, p.errorAtLoc(node.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
 			} else if typ == N_STMT_IMPORT || typ == N_STMT_EXPORT {
 				return nil, p.errorAtLoc(node.Range(), ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL)
@@ -1814,8 +1814,8 @@ func (p *Parser) withStmt() (Node, error) {
 		}
 		return nil, err
 	}
-	if body.Type() == N_STMT_FN {
-		return nil, p.errorAtLoc(body.Range(), ERR_UNEXPECTED_TOKEN)
+	if err := p.checkSubStmt(body, false); err != nil {
+		return nil, err
 	}
 
 	if p.scope().IsKind(SPK_STRICT) {
@@ -2228,6 +2228,19 @@ func (p *Parser) switchCase(tok *Token) (*SwitchCase, error) {
 	return &SwitchCase{N_SWITCH_CASE, p.finRng(rng), test, cons}, nil
 }
 
+// checks the statement is legal as the body of `if`, `with` or a loop, `fn` means whether the body
+// is permitted to be a function, the labelled function is always prohibited
+func (p *Parser) checkSubStmt(body Node, fn bool) error {
+	for body != nil && body.Type() == N_STMT_LABEL {
+		body = body.(*LabelStmt).body
+		fn = false
+	}
+	if body != nil && body.Type() == N_STMT_FN && !fn {
+		return p.errorAtLoc(body.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
+	}
+	return nil
+}
+
 // https://tc39.es/ecma262/multipage/ecmascript-language-statements-and-declarations.html#prod-IfStatement
 func (p *Parser) ifStmt() (Node, error) {
 	rng := p.rng()
@@ -2257,6 +2270,9 @@ func (p *Parser) ifStmt() (Node, error) {
 		}
 		return nil, err
 	}
+	if err := p.checkSubStmt(cons, true); err != nil {
+		return nil, err
+	}
 
 	var alt Node
 	if p.lexer.Peek().value == T_ELSE {
@@ -2273,6 +2289,9 @@ func (p *Parser) ifStmt() (Node, error) {
 			}
 			return nil, err
 		}
+		if err := p.checkSubStmt(alt, true); err != nil {
+			return nil, err
+		}
 	}
 	return &IfStmt{N_STMT_IF, p.finRng(rng), test, cons, alt}, nil
 }
@@ -2298,6 +2317,9 @@ func (p *Parser) doWhileStmt() (Node, error) {
 		}
 		return nil, err
 	}
+	if err := p.checkSubStmt(body, false); err != nil {
+		return nil, err
+	}
 
 	if _, err := p.nextMustTok(T_WHILE); err != nil {
 		return nil, err
@@ -2361,6 +2383,9 @@ func (p *Parser) whileStmt() (Node, error) {
 		}
 		return nil, err
 	}
+	if err := p.checkSubStmt(body, false); err != nil {
+		return nil, err
+	}
 
 	s := p.symtab.LeaveScope()
 	s.Node = loop
@@ -2498,6 +2523,9 @@ func (p *Parser) forStmt() (Node, error) {
 			}
 			return nil, err
 		}
+		if err := p.checkSubStmt(body, false); err != nil {
+			return nil, err
+		}
 
 		s := p.symtab.LeaveScope()
 		s.Node = loop
@@ -2554,6 +2582,9 @@ func (p *Parser) forStmt() (Node, error) {
 		}
 		return nil, err
 	}
+	if err := p.checkSubStmt(body, false); err != nil {
+		return nil, err
+	}
 
 	s := p.symtab.LeaveScope()
 	s.Node = loopNode
-- 
2.43.0


From 4d6af2081392e4465f537ffbfeb04716572a3a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:10 +0000
Subject: [PATCH 37/84] fix: import clauses without from were accepted

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index aa16e8d..ded0355 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -866,6 +866,7 @@ func (p *Parser) importDec() (Node, error) {
 
 	specs := make([]Node, 0, 5)
 	tok := p.lexer.Peek()
+	bare := tok.value == T_STRING
 	node := &ImportDec{N_STMT_IMPORT, span.Range{}, specs, nil, false}
 
 	// the second arg set to `true` for stmt like: `import type * as Types`
@@ -955,6 +956,8 @@ func (p *Parser) importDec() (Node, error) {
 	av := ahead.value
 	if av == T_NAME && ahead.text == "from" && !ahead.ContainsEscape() {
 		p.lexer.Next()
+	} else if !bare {
+		return nil, p.errorTok(ahead)
 	}
 
 	str, err := p.nextMustTok(T_STRING)
-- 
2.43.0


From f932d5948c5d4a9ba927bbd26be5f73ac7fe203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:16 +0000
Subject: [PATCH 38/84] fix: import specifiers without commas were accepted

---
 ecma/parser/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index ded0355..3537272 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1079,9 +1079,10 @@ func (p *Parser) importNamed(typ bool) ([]Node, error) {
 			return nil, err
 		}
 		specs = append(specs, spec)
-		if p.lexer.Peek().value == T_COMMA {
-			p.lexer.Next()
+		if p.lexer.Peek().value != T_COMMA {
+			break
 		}
+		p.lexer.Next()
 	}
 
 	_, err := p.nextMustTok(T_BRACE_R)
-- 
2.43.0


From 13c73a8e86e759d69bba60ec3a9de2d0995c02e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:23 +0000
Subject: [PATCH 39/84] fix: import declarations were accepted in blocks

---
 ecma/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 3537272..caed29f 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -990,6 +990,10 @@ func (p *Parser) importDec() (Node, error) {
 	}
 
 	node.rng = p.finRng(rng)
+	if scope := p.scope(); !scope.IsKind(SPK_GLOBAL) &&
+		(!scope.IsKind(SPK_TS_MODULE) || scope.IsKind(SPK_TS_MODULE_INDIRECT)) {
+		return nil, p.errorAtLoc(node.rng, ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL)
+	}
 	return node, nil
 }
 
-- 
2.43.0


From 16de1c4b6cdd955bdcf51a320a90bfd04529d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:28 +0000
Subject: [PATCH 40/84] fix: redeclarations by import were not reported

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index caed29f..0a1d68c 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -983,7 +983,7 @@ func (p *Parser) importDec() (Node, error) {
 			ref.Dec = node
 			ref.BindKind = BK_CONST
 			ref.Typ = RDT_IMPORT
-			if p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
+			if err := p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
 				return nil, err
 			}
 		}
-- 
2.43.0


From 92ba3a4b38b9679d30e343e8128d3833d599f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:34 +0000
Subject: [PATCH 41/84] fix: statements on the same line after export default
 were accepted

---
 ecma/parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0a1d68c..1f6c50f 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -579,7 +579,10 @@ func (p *Parser) exportDec() (Node, error) {
 			}
 		} else {
 			node.dec, err = p.assignExpr(true, false, false, false)
-			if err := p.advanceIfSemi(false); err != nil {
+			if err != nil {
+				return nil, err
+			}
+			if err := p.advanceIfSemi(true); err != nil {
 				return nil, err
 			}
 		}
-- 
2.43.0


From 6f4a5d1f577d3cb9087ca974ca6a14a8d4de5c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:39 +0000
Subject: [PATCH 42/84] fix: keywords as names of exported namespaces were
 rejected

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1f6c50f..7bd1774 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -711,7 +711,7 @@ func (p *Parser) exportFrom(typ bool) ([]Node, bool, Node, error) {
 		if ahead.value == T_NAME && ahead.text == "as" && p.feat&FEAT_EXPORT_ALL_AS_NS != 0 {
 			p.lexer.Next()
 
-			id, err := p.ident(nil, false)
+			id, err := p.identWithKw(nil, false)
 			if err != nil {
 				return nil, false, nil, err
 			}
-- 
2.43.0


From 63d943f35fef84006c3cf40b34ce36558c192bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:44 +0000
Subject: [PATCH 43/84] fix: heads of for statements without required
 initializers were accepted

---
 ecma/parser/parser.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 7bd1774..2d6fa07 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2551,6 +2551,22 @@ func (p *Parser) forStmt() (Node, error) {
 		return loop, nil
 	}
 
+	if init != nil && init.Type() == N_STMT_VAR_DEC {
+		// the initializers can only be omitted in the head of for-in and for-of
+		for _, node := range init.(*VarDecStmt).decList {
+			dec := node.(*VarDec)
+			if dec.init != nil {
+				continue
+			}
+			if init.(*VarDecStmt).kind == T_CONST {
+				return nil, p.errorAtLoc(dec.rng, ERR_CONST_DEC_INIT_REQUIRED)
+			}
+			if dec.id.Type() != N_NAME {
+				return nil, p.errorAtLoc(dec.rng, ERR_COMPLEX_BINDING_MISSING_INIT)
+			}
+		}
+	}
+
 	loopNode := &ForStmt{N_STMT_FOR, span.Range{}, nil, nil, nil, nil}
 	p.pushLoopStk(loopNode)
 
-- 
2.43.0


From 151a78bea42ac9d2d339e40628a5761ff36a416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:30 +0000
Subject: [PATCH 44/84] fix: redeclarations were not reported consistently

---
 ecma/parser/parser.go | 56 +++++++++++++++++++++++++++++++++++++++++--
 ecma/parser/symtab.go | 49 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 102 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 2d6fa07..b6b1036 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -44,6 +44,9 @@ type Parser struct {
 	// the parsed decorators but have not been attached to the target nodes
 	hangingDecorators []Node
 
+	// whether the next function is the branch of `if`
+	fnInIf bool
+
 	// a temporary stack which holds the loop nodes in their lexical order
 	loopStk []Node
 
@@ -989,6 +992,9 @@ func (p *Parser) importDec() (Node, error) {
 			if err := p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
 				return nil, err
 			}
+			if err := p.declare(p.Symtab().Scopes[0], ref.Id, dkLex); err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -1176,6 +1182,11 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 			if err := p.addLocalBinding(ps, ref, true, ref.Id.val); err != nil {
 				return nil, err
 			}
+			if !expr {
+				if err := p.declare(ps, ref.Id, dkLex); err != nil {
+					return nil, err
+				}
+			}
 		}
 	}
 	if !expr && !canNameOmitted && id == nil {
@@ -1784,7 +1795,7 @@ func (p *Parser) classElemName() (Node, span.Range, error) {
 }
 
 func (p *Parser) staticBlock(static span.Range) (Node, error) {
-	block, err := p.blockStmt(true, SPK_NONE)
+	block, err := p.blockStmt(true, SPK_STATIC_BLOCK)
 	if err != nil {
 		return nil, err
 	}
@@ -1911,6 +1922,13 @@ func (p *Parser) tryStmt() (Node, error) {
 				if err := p.addLocalBinding(nil, ref, true, id.val); err != nil {
 					return nil, err
 				}
+				kind := dkLex
+				if param.Type() == N_NAME {
+					kind = dkCatch
+				}
+				if err := p.declare(scope, id, kind); err != nil {
+					return nil, err
+				}
 			}
 		}
 
@@ -2271,6 +2289,7 @@ func (p *Parser) ifStmt() (Node, error) {
 	scope := p.scope()
 	tok := p.lexer.PeekStmtBegin()
 
+	p.fnInIf = tok.value == T_FUNC
 	scope.AddKind(SPK_INTERIM)
 	cons, err := p.stmt()
 	scope.EraseKind(SPK_INTERIM)
@@ -2290,6 +2309,7 @@ func (p *Parser) ifStmt() (Node, error) {
 		p.lexer.Next()
 		tok := p.lexer.PeekStmtBegin()
 
+		p.fnInIf = tok.value == T_FUNC
 		scope.AddKind(SPK_INTERIM)
 		alt, err = p.stmt()
 		scope.EraseKind(SPK_INTERIM)
@@ -2661,6 +2681,8 @@ func (p *Parser) aheadIsAsyncFn(tok *Token) bool {
 // https://tc39.es/ecma262/multipage/ecmascript-language-statements-and-declarations.html#prod-HoistableDeclaration
 func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, error) {
 	rng := p.rng()
+	inIf := p.fnInIf
+	p.fnInIf = false
 
 	// below value cache is needed since token is saved in the ring-buffer
 	// so the advanced token maybe override by next token peek
@@ -2721,6 +2743,18 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			if err := p.addLocalBinding(ps, fnRef, ps.IsKind(SPK_STRICT), fnRef.Id.val); err != nil {
 				return nil, err
 			}
+			kind := dkFn
+			if ps.isVarScope() && (!ps.IsKind(SPK_GLOBAL) || p.feat&FEAT_MODULE == 0) {
+				kind = dkVar
+			} else if async != nil || generator || ps.IsKind(SPK_STRICT) {
+				kind = dkLex
+			}
+			// the function as the branch of `if` is in its own block
+			if !inIf {
+				if err := p.declare(ps, fnRef.Id, kind); err != nil {
+					return nil, err
+				}
+			}
 		}
 	}
 	if fn && !expr && !canNameOmitted && id == nil {
@@ -2836,6 +2870,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			ref.BindKind = BK_PARAM
 			// duplicate-checking for params is enable in strict and delegated to below `checkParams`
 			p.addLocalBinding(nil, ref, false, ref.Id.val)
+			p.declare(p.scope(), ref.Id, dkParam)
 		}
 
 		if tok.value == T_BRACE_L {
@@ -3264,11 +3299,19 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 	return false, T_ILLEGAL
 }
 
+func (p *Parser) declare(s *Scope, id *Ident, kind decKind) error {
+	if p.ts || s.declare(id.val, kind) {
+		return nil
+	}
+	return p.errorAtLoc(id.rng, fmt.Sprintf(ERR_TPL_ID_DUP_DEF, id.val))
+}
+
 func (p *Parser) addLocalBinding(s *Scope, ref *Ref, checkDup bool, name string) error {
 	if s == nil {
 		s = p.scope()
 	}
-	ok := s.AddLocal(ref, name, checkDup)
+	// the redeclarations of js are reported by `declare`, ts has its own rules to merge the declarations
+	ok := s.AddLocal(ref, name, checkDup && p.ts)
 	if ok {
 		return nil
 	}
@@ -3338,6 +3381,13 @@ func (p *Parser) varDecStmt(kind TokenValue, asExpr bool) (Node, error) {
 		if err := p.addLocalBinding(nil, ref, true, ref.Id.val); err != nil {
 			return nil, err
 		}
+		kind := dkLex
+		if bindKind == BK_VAR {
+			kind = dkVar
+		}
+		if err := p.declare(p.scope(), id, kind); err != nil {
+			return nil, err
+		}
 	}
 
 	if !asExpr {
@@ -6010,6 +6060,7 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 		ref.BindKind = BK_PARAM
 		// duplicate-checking is enable in strict mode by below `checkParams`
 		p.addLocalBinding(nil, ref, false, ref.Id.val)
+		p.declare(p.scope(), ref.Id, dkParam)
 	}
 
 	if ti == nil {
@@ -6457,6 +6508,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		// duplicate-checking is enable in strict mode so here skip doing checking,
 		// checking is delegated to below `checkParams`
 		p.addLocalBinding(nil, ref, false, ref.Id.val)
+		p.declare(p.scope(), ref.Id, dkParam)
 	}
 
 	// the return type of method
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 4cdeb22..106f868 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -39,6 +39,7 @@ const (
 	SPK_TS_MODULE_INDIRECT
 	SPK_TS_INTERFACE
 	SPK_TS_MAY_INTRINSIC
+	SPK_STATIC_BLOCK
 )
 
 type BindKind uint8
@@ -146,6 +147,51 @@ type Scope struct {
 
 	// exports declared at this scope
 	Exports []*ExportDec
+
+	// how the names are declared in this scope, used to check the redeclaration
+	decs map[string]decKind
+}
+
+type decKind uint8
+
+const (
+	dkLex   decKind = 1 << iota // let, const, class, import and the functions which cannot be repeated
+	dkFn                        // functions in the blocks of sloppy code, they can be repeated
+	dkVar                       // var and the functions at the top level of functions and scripts
+	dkParam                     // formal parameter
+	dkCatch                     // catch parameter which is not a pattern
+)
+
+// whether the `var` in this scope is not hoisted to the upper scope
+func (s *Scope) isVarScope() bool {
+	return s.IsKind(SPK_FUNC) || s.IsKind(SPK_GLOBAL) || s.IsKind(SPK_STATIC_BLOCK)
+}
+
+// declares `name` in the scope, returns `false` if that is a redeclaration
+func (s *Scope) declare(name string, kind decKind) bool {
+	prev := s.decs[name]
+	switch kind {
+	case dkLex:
+		if prev != 0 {
+			return false
+		}
+	case dkFn:
+		if prev&^dkFn != 0 {
+			return false
+		}
+	case dkVar:
+		for scope := s; scope != nil; scope = scope.Up {
+			if scope.decs[name]&(dkLex|dkFn) != 0 {
+				return false
+			}
+			scope.decs[name] |= dkVar
+			if scope.isVarScope() {
+				break
+			}
+		}
+	}
+	s.decs[name] |= kind
+	return true
 }
 
 func NewScope() *Scope {
@@ -157,6 +203,7 @@ func NewScope() *Scope {
 		Labels:       make([]Node, 0),
 
 		Refs: make(map[string]*Ref),
+		decs: make(map[string]decKind),
 	}
 	return scope
 }
@@ -248,7 +295,7 @@ func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
 	local := s.Local(name)
 
 	// `try {} catch (foo) { let foo; }` is illegal
-	if cur.IsKind(SPK_CATCH) && local != nil {
+	if checkDup && cur.IsKind(SPK_CATCH) && local != nil {
 		return false
 	}
 
-- 
2.43.0


From d3803b191865341a9ddebb368ccdb6191d070cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:35 +0000
Subject: [PATCH 45/84] fix: duplicate names of exported namespaces were
 accepted

---
 ecma/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index b6b1036..0cbfc66 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -349,7 +349,9 @@ func (p *Parser) checkExp(exps []*ExportDec) error {
 			subnames = make([]Node, 0, len(exp.specs))
 			for _, spec := range exp.specs {
 				s := spec.(*ExportSpec)
-				if s.id != nil && !s.tsTyp {
+				if s.ns && !s.tsTyp {
+					subnames = append(subnames, s.local)
+				} else if s.id != nil && !s.tsTyp {
 					subnames = append(subnames, s.id)
 				}
 			}
-- 
2.43.0


From a49c80dfb59833a06899a4d40cc7bf87c0cfe61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:56 +0000
Subject: [PATCH 46/84] fix: duplicate parameters of arrow functions and
 methods were accepted

---
 ecma/parser/parser.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0cbfc66..7f1630a 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2938,7 +2938,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		}
 	}
 
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, arrow); err != nil {
 		return nil, err
 	}
 
@@ -3021,9 +3021,10 @@ func (p *Parser) collectNames(nodes []Node) (names []Node, firstComplicated span
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-functions-and-classes.html#sec-parameter-lists-static-semantics-early-errors
 // `isSimpleParamList` should be true if function body directly contains `use strict` directive
-func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict bool, directStrict bool) error {
+// `unique` means the duplicate names are always prohibited, that is the case for arrow functions and methods
+func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict bool, directStrict bool, unique bool) error {
 	var dupLoc span.Range
-	unique := make(map[string]bool)
+	occurred := make(map[string]bool)
 	for _, id := range names {
 		name := id.(*Ident).val
 		if p.isProhibitedName(nil, name, isStrict, true, false, false) {
@@ -3031,11 +3032,11 @@ func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict
 		}
 
 		if dupLoc.Empty() {
-			if _, ok := unique[name]; ok {
+			if _, ok := occurred[name]; ok {
 				dupLoc = id.Range()
 
 			} else {
-				unique[name] = true
+				occurred[name] = true
 			}
 		}
 	}
@@ -3045,7 +3046,7 @@ func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict
 	}
 
 	if !dupLoc.Empty() {
-		if isStrict {
+		if isStrict || unique {
 			return p.errorAtLoc(dupLoc, ERR_DUP_PARAM_NAME)
 		}
 		if !firstComplicated.Empty() {
@@ -6099,7 +6100,7 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, true); err != nil {
 		return nil, err
 	}
 
@@ -6556,7 +6557,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
 
 	// `isProhibitedName` is not needed here since `keyword` as method name is permitted
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, true); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 2478467dcd6876d319cfa9cd8d0b72b950187ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:05 +0000
Subject: [PATCH 47/84] fix: assignment to eval and arguments in parens was
 accepted in strict mode

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 7f1630a..e692809 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5528,7 +5528,7 @@ func (p *Parser) checkArg(arg Node, spread bool, simplicity bool) error {
 	case N_EXPR_ASSIGN:
 		if simplicity {
 			n := arg.(*AssignExpr)
-			if n.op != T_ASSIGN && !p.isSimpleLVal(n.lhs, false, false, true, false) {
+			if !p.isSimpleLVal(n.lhs, n.op == T_ASSIGN, false, true, n.op != T_ASSIGN) {
 				return p.errorAtLoc(n.lhs.Range(), ERR_ASSIGN_TO_RVALUE)
 			}
 		}
-- 
2.43.0


From 5f11127ab005d1bb1856c8ff98d717b1173c7e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:11 +0000
Subject: [PATCH 48/84] fix: AwaitExpression was converted with the members of
 UnaryExpression

---
 ecma/estree/convert.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 84822df..0bc93d1 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -943,12 +943,17 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 		}
 	case parser.N_EXPR_UNARY:
 		un := node.(*parser.UnaryExpr)
-		typ := "UnaryExpression"
 		if un.Op() == parser.T_AWAIT {
-			typ = "AwaitExpression"
+			return &AwaitExpression{
+				Type:     "AwaitExpression",
+				Start:    int(un.Range().Lo),
+				End:      int(un.Range().Hi),
+				Loc:      locOfNode(un, ctx.Parser.Source(), ctx),
+				Argument: Convert(un.Arg(), ctx),
+			}
 		}
 		return &UnaryExpression{
-			Type:     typ,
+			Type:     "UnaryExpression",
 			Start:    int(un.Range().Lo),
 			End:      int(un.Range().Hi),
 			Loc:      locOfNode(un, ctx.Parser.Source(), ctx),
-- 
2.43.0


From d4e88c167579d125d456035ab8f405e8373ca7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:42 +0000
Subject: [PATCH 49/84] fix: legacy octal literal right after use strict was
 accepted

---
 ecma/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e692809..1406b84 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3191,6 +3191,10 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 					// here we use `ahead.value != T_BRACE_R` to prevent accidentally change
 					// the upper lexer mode
 					p.enterStrict(ahead.value != T_BRACE_R)
+					// `ahead` is scanned before the strict mode is entered
+					if text := p.TokText(ahead); ahead.value == T_NUM && len(text) > 1 && text[0] == '0' && IsDecimalDigit(rune(text[1])) {
+						return nil, p.errorAtLoc(ahead.rng, ERR_LEGACY_OCTAL_IN_STRICT_MODE)
+					}
 
 					// lookbehind to check that exprs before the 'use strict' directive
 					if prologue > 0 {
-- 
2.43.0


From ddd1451354ccf21c2cb1fc696f98f772df0b00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:46 +0000
Subject: [PATCH 50/84] fix: yield was accepted as binding in generators

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1406b84..61bb2e5 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3474,7 +3474,7 @@ func (p *Parser) isProhibitedName(scope *Scope, name string, withStrict bool, lV
 	if (strict && lVal || field) && (name == "eval" || name == "arguments") {
 		return true
 	}
-	return scope.IsKind(SPK_ASYNC) && name == "await"
+	return scope.IsKind(SPK_ASYNC) && name == "await" || lVal && scope.IsKind(SPK_GENERATOR) && name == "yield"
 }
 
 func (p *Parser) identStrict(scope *Scope, forceStrict bool, binding bool) (Node, error) {
-- 
2.43.0


From a8d2b47e6d874de1529424213b69df24bb2b8b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:38 +0000
Subject: [PATCH 51/84] fix: use strict after other statements was a directive

---
 ecma/parser/parser.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 61bb2e5..4c78931 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3179,9 +3179,7 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 			if prologue != -1 && (scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_GLOBAL)) {
 				strict, dir := p.isDirective(stmt)
 				if !dir {
-					if prologue == 0 {
-						prologue = -1
-					}
+					prologue = -1
 				} else {
 					stmt.(*ExprStmt).dir = true
 				}
-- 
2.43.0


From 05cfee4bf68f1d530a3689d3840df5e7cf8c53a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:43 +0000
Subject: [PATCH 52/84] fix: await of await was rejected

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 4c78931..08dc3fd 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4445,7 +4445,7 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 	scope := p.scope()
 
 	ahead := p.lexer.Peek()
-	if !TokenKinds[ahead.value].StartExpr {
+	if !TokenKinds[ahead.value].StartExpr && ahead.value != T_AWAIT {
 		if p.feat&FEAT_MODULE != 0 {
 			// report friendly message for expr like: `async function foo(await) {}`
 			if ahead.value == T_PAREN_R || ahead.value == T_COMMA {
-- 
2.43.0


From 92942875018171f123a9dce0d477258f9f8bb8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:48 +0000
Subject: [PATCH 53/84] fix: return in static blocks was accepted

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 08dc3fd..8feb1d0 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2023,7 +2023,7 @@ func (p *Parser) retStmt() (Node, error) {
 	}
 
 	scope := p.scope()
-	if !scope.IsKind(SPK_FUNC) && !scope.IsKind(SPK_FUNC_INDIRECT) {
+	if fn := scope.UpperFn(); fn == nil || !fn.IsKind(SPK_FUNC) || fn.IsKind(SPK_CLASS) {
 		return nil, p.errorAtLoc(rng, ERR_ILLEGAL_RETURN)
 	}
 
-- 
2.43.0


From 9a6e9301444e1ad76c606b73f162264831415057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:54 +0000
Subject: [PATCH 54/84] fix: new.target in nested arrow functions outside of
 functions was accepted

---
 ecma/parser/parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 8feb1d0..0d399cf 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4665,9 +4665,12 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 		if id.val != "target" {
 			return nil, p.errorAtLoc(id.Range(), ERR_INVALID_META_PROP)
 		}
-		if !(scope.IsKind(SPK_CLASS) || scope.IsKind(SPK_CLASS_INDIRECT) ||
-			scope.IsKind(SPK_ARROW) && scope.IsKind(SPK_FUNC_INDIRECT) ||
-			(!scope.IsKind(SPK_ARROW) && (scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_FUNC_INDIRECT)))) {
+		// the arrow functions do not have their own `new.target`
+		fn := scope.UpperFn()
+		for fn != nil && fn.IsKind(SPK_ARROW) {
+			fn = fn.Up.UpperFn()
+		}
+		if fn == nil || !fn.IsKind(SPK_FUNC) {
 			return nil, p.errorAtLoc(rng, ERR_META_PROP_OUTSIDE_FN)
 		}
 
-- 
2.43.0


From 8f619a20e0c3328c0e08f3199f19320519928707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:20 +0000
Subject: [PATCH 55/84] fix: eval and arguments as names of functions which are
 strict by their directive were accepted

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0d399cf..5d82285 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2933,7 +2933,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
 	if id != nil {
 		name := id.(*Ident).val
-		if p.isProhibitedName(idScope, name, isStrict, true, false, false) {
+		if p.isProhibitedName(idScope, name, isStrict, true, false, isStrict) {
 			return nil, p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
 		}
 	}
-- 
2.43.0


From 0adfb85e9971de28c6f050b1b8584ecabb3d78ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:00 +0000
Subject: [PATCH 56/84] fix: code after a block at the start of strict code was
 scanned as sloppy

---
 ecma/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 5d82285..3fa0827 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3189,6 +3189,10 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 					// here we use `ahead.value != T_BRACE_R` to prevent accidentally change
 					// the upper lexer mode
 					p.enterStrict(ahead.value != T_BRACE_R)
+					// the mode of the block is already pushed if `ahead` is its brace
+					if modes := p.lexer.state.mode; ahead.value == T_BRACE_L && len(modes) > 1 {
+						modes[len(modes)-2].kind |= LM_STRICT
+					}
 					// `ahead` is scanned before the strict mode is entered
 					if text := p.TokText(ahead); ahead.value == T_NUM && len(text) > 1 && text[0] == '0' && IsDecimalDigit(rune(text[1])) {
 						return nil, p.errorAtLoc(ahead.rng, ERR_LEGACY_OCTAL_IN_STRICT_MODE)
-- 
2.43.0


From 973a0e93605886520be785724235af6ac67bcb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:07 +0000
Subject: [PATCH 57/84] fix: new.target in computed names of class elements was
 accepted outside of functions

---
 ecma/parser/parser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 3fa0827..f42a629 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3973,9 +3973,15 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		key = &NumLit{N_LIT_NUM, p.finRng(rng), span.Range{}}
 	} else if tv == T_BRACKET_L {
 		computeLoc = tok.rng
-		scope.AddKind(SPK_PROP_NAME)
+		// the computed names of class elements do not belong to the class
+		inName := scope.IsKind(SPK_PROP_NAME)
+		if allowNamePVT {
+			scope.AddKind(SPK_PROP_NAME)
+		}
 		name, err := p.assignExpr(true, false, false, false)
-		scope.EraseKind(SPK_PROP_NAME)
+		if !inName {
+			scope.EraseKind(SPK_PROP_NAME)
+		}
 		if err != nil {
 			return nil, span.Range{}, err
 		}
@@ -4671,7 +4677,7 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 		}
 		// the arrow functions do not have their own `new.target`
 		fn := scope.UpperFn()
-		for fn != nil && fn.IsKind(SPK_ARROW) {
+		for fn != nil && (fn.IsKind(SPK_ARROW) || fn.IsKind(SPK_CLASS) && fn.IsKind(SPK_PROP_NAME)) {
 			fn = fn.Up.UpperFn()
 		}
 		if fn == nil || !fn.IsKind(SPK_FUNC) {
-- 
2.43.0


From 0471e2ef62cb75baf423874e2ef5f026dc668517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:12 +0000
Subject: [PATCH 58/84] fix: arguments in initializers of fields and await in
 static blocks were accepted

---
 ecma/parser/parser.go |  6 ++++++
 ecma/parser/symtab.go | 22 ++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index f42a629..78c006e 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3476,6 +3476,9 @@ func (p *Parser) isProhibitedName(scope *Scope, name string, withStrict bool, lV
 	if (strict && lVal || field) && (name == "eval" || name == "arguments") {
 		return true
 	}
+	if name == "await" && scope.inStaticBlock() {
+		return true
+	}
 	return scope.IsKind(SPK_ASYNC) && name == "await" || lVal && scope.IsKind(SPK_GENERATOR) && name == "yield"
 }
 
@@ -5965,6 +5968,9 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
 		// `await` in `async (await)` is only illegal if it is followed by `=>`, which is reported by `argsToParams`
 		awaitArg := name == "await" && p.scope().IsKind(SPK_FORMAL_PARAMS)
+		if name == "arguments" && p.scope().inClassInit() {
+			return nil, p.errorAtLoc(p.finRng(loc), fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
+		}
 		if ahead.value != T_ARROW && !awaitArg && p.isProhibitedName(nil, name, true, false, false, false) {
 			if tok.ContainsEscape() {
 				return nil, p.errorAtLoc(p.finRng(loc), ERR_ESCAPE_IN_KEYWORD)
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 106f868..5f53314 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -237,6 +237,28 @@ func (s *Scope) UpperFn() *Scope {
 	return nil
 }
 
+// whether the scope is in a static block, the functions in that block are not taken into account
+func (s *Scope) inStaticBlock() bool {
+	for scope := s; scope != nil; scope = scope.Up {
+		if scope.IsKind(SPK_STATIC_BLOCK) {
+			return true
+		}
+		if scope.IsKind(SPK_FUNC) && !scope.IsKind(SPK_ARROW) {
+			return false
+		}
+	}
+	return false
+}
+
+// whether the scope is in the initializer of a field or in a static block
+func (s *Scope) inClassInit() bool {
+	fn := s.UpperFn()
+	for fn != nil && fn.IsKind(SPK_ARROW) {
+		fn = fn.Up.UpperFn()
+	}
+	return fn != nil && fn.IsKind(SPK_CLASS) && !fn.IsKind(SPK_PROP_NAME)
+}
+
 func (s *Scope) UpperCls() *Scope {
 	scope := s
 	for scope != nil {
-- 
2.43.0


From 66d43fb12b35f7901fc4368eb48cc5dfe9af80ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:11 +0000
Subject: [PATCH 59/84] fix: classes named eval or arguments were accepted

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 78c006e..a53ef87 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1165,6 +1165,9 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 			if err != nil {
 				return nil, err
 			}
+			if name := id.(*Ident).val; name == "eval" || name == "arguments" {
+				return nil, p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, name))
+			}
 		}
 
 		if ti != nil {
-- 
2.43.0


From df0f14d740477e7b0c0dd2e9bac0539baba93b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:31 +0000
Subject: [PATCH 60/84] fix: several default clauses separated by a case were
 accepted in switch

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a53ef87..0179347 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2211,7 +2211,7 @@ func (p *Parser) switchStmt() (Node, error) {
 			return nil, err
 		}
 		if caseClause != nil {
-			metDefault = caseClause.test == nil
+			metDefault = metDefault || caseClause.test == nil
 			cases = append(cases, caseClause)
 		} else {
 			break
-- 
2.43.0


From 43d7b1d819c12bdbd9abfbb58e9eebf3fe804f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:15 +0000
Subject: [PATCH 61/84] fix: LRU caches of a capacity below 3 never cleared
 elements

---
 util/lru.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/lru.go b/util/lru.go
index 3ad84ef..afa1ef9 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -16,6 +16,9 @@ func NewLruCache[K comparable, V any](cap int, clear int) *LruCache[K, V] {
 	if clear == 0 || clear > cap {
 		clear = cap / 3
 	}
+	if clear < 1 {
+		clear = 1
+	}
 	return &LruCache[K, V]{
 		cap:   cap,
 		store: NewOrderedMap[K, V](),
-- 
2.43.0


From c6bd81f92ca568997580e2b1aa77d0bfd1809f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:15 +0000
Subject: [PATCH 62/84] fix: keys cleared from LRU caches were still found

---
 util/lru.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/lru.go b/util/lru.go
index afa1ef9..a306328 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -60,7 +60,7 @@ func (c *LruCache[K, V]) Set(key K, val V) {
 		for i := 0; i < c.clear; i++ {
 			elem := c.store.list.Front()
 			if elem != nil {
-				c.store.list.Remove(elem)
+				c.store.Remove(elem.Value.(*KvPair[K, V]).Key)
 			}
 		}
 	}
-- 
2.43.0


From 772a4e7082bf24058f0cd290bf5b787d3484298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:15 +0000
Subject: [PATCH 63/84] fix: concurrent sets of the same key cleared elements
 of LRU caches twice

---
 util/lru.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/util/lru.go b/util/lru.go
index a306328..4d96134 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -43,18 +43,15 @@ func (c *LruCache[K, V]) Get(key K) V {
 }
 
 func (c *LruCache[K, V]) Set(key K, val V) {
-	if c.HasKey(key) {
-		c.lock.Lock()
-		defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
+	if c.store.HasKey(key) {
 		elem := c.store.Set(key, val)
 		c.store.list.MoveToBack(elem)
 		return
 	}
 
-	c.lock.Lock()
-	defer c.lock.Unlock()
-
 	// clear the store if it's full
 	if c.store.list.Len()+1 > c.cap {
 		for i := 0; i < c.clear; i++ {
-- 
2.43.0


From 12ada4ef2e2f30ace7c3534127f325d4d0a69d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:15 +0000
Subject: [PATCH 64/84] fix: the directory walker read its queue without the
 lock

---
 util/walkdir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/walkdir.go b/util/walkdir.go
index b2cc3ff..37ef8f1 100644
--- a/util/walkdir.go
+++ b/util/walkdir.go
@@ -56,12 +56,12 @@ func NewDirWalker(dir string, concurrent int, handle DirWalkerHandle) *DirWalker
 }
 
 func (w *DirWalker) shift() string {
-	if w.dirs.Len() == 0 {
-		return ""
-	}
 	w.dirsLock.Lock()
 	defer w.dirsLock.Unlock()
 
+	if w.dirs.Len() == 0 {
+		return ""
+	}
 	d := w.dirs.Front()
 	w.dirs.Remove(d)
 	return d.Value.(string)
-- 
2.43.0


From 2846fbea7fa16c2dae680f0fab0459a6433f12a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:15 +0000
Subject: [PATCH 65/84] fix: the directory walker did not return after errors
 and stops with busy workers and left its workers running

---
 util/walkdir.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/util/walkdir.go b/util/walkdir.go
index 37ef8f1..01c2a26 100644
--- a/util/walkdir.go
+++ b/util/walkdir.go
@@ -86,7 +86,7 @@ loop:
 
 			files, err := os.ReadDir(dir)
 			if err != nil {
-				w.stop <- err
+				w.Stop(err)
 				return
 			}
 
@@ -99,7 +99,12 @@ loop:
 				if file.IsDir() {
 					w.wg.Add(1)
 					w.push(pth)
-					go func() { w.newJob <- true }()
+					go func() {
+						select {
+						case w.newJob <- true:
+						case <-w.fin:
+						}
+					}()
 				} else {
 					w.handle(pth, false, w)
 				}
@@ -121,7 +126,10 @@ func (w *DirWalker) initWorkers() *DirWalker {
 }
 
 func (w *DirWalker) Stop(err error) {
-	w.stop <- err
+	select {
+	case w.stop <- err:
+	case <-w.fin: // already stopped
+	}
 }
 
 func (w *DirWalker) Err() error {
@@ -135,7 +143,10 @@ func (w *DirWalker) Walk() {
 
 	go func() {
 		w.wg.Wait()
-		w.wgFin <- true
+		select {
+		case w.wgFin <- true:
+		case <-w.fin:
+		}
 	}()
 
 loop:
@@ -149,5 +160,5 @@ loop:
 		}
 	}
 
-	w.fin <- true
+	close(w.fin)
 }
-- 
2.43.0


From ccb782476072ce4b45f73c7048c782ef4179e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:15 +0000
Subject: [PATCH 66/84] fix: concurrent and repeated requests to the parse
 cache were lost, repeated the parse or panicked

---
 parseutil/cache.go | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/parseutil/cache.go b/parseutil/cache.go
index fae7a2c..9064495 100644
--- a/parseutil/cache.go
+++ b/parseutil/cache.go
@@ -18,6 +18,16 @@ type Parser interface {
 	Parse(file, code string, readFile bool, biz interface{}) Parsed
 }
 
+// the process is running, `waiters` will receive its result
+type pending struct {
+	waiters []FutureParsed
+}
+
+// the process has been done
+type parsed struct {
+	val Parsed
+}
+
 type ParseCache[T comparable] struct {
 	ps map[ParserType]Parser
 
@@ -38,37 +48,32 @@ func (c *ParseCache[T]) SetParser(p Parser) {
 }
 
 func (c *ParseCache[T]) Parse(typ ParserType, key T, file, code string, readFile bool, biz interface{}) FutureParsed {
-	var r interface{}
 	c.storeLock.Lock()
-	r = c.store[key]
-	c.storeLock.Unlock()
+	defer c.storeLock.Unlock()
 
-	switch v := r.(type) {
-	case FutureParsed: // already has a pending process
-		return v
+	ret := make(FutureParsed, 1)
+	switch v := c.store[key].(type) {
+	case *pending: // already has a pending process
+		v.waiters = append(v.waiters, ret)
 
-	case *Parsed: // process has been done before
-		ret := make(FutureParsed, 1)
-		ret <- v
-		return ret
+	case *parsed: // process has been done before
+		ret <- v.val
 
 	case nil: // first time
-		ret := make(FutureParsed, 1)
-		c.storeLock.Lock()
-		c.store[key] = ret
-		c.storeLock.Unlock()
+		job := &pending{waiters: []FutureParsed{ret}}
+		c.store[key] = job
 
 		go func() {
 			r := c.ps[typ].Parse(file, code, readFile, biz)
 
 			c.storeLock.Lock()
-			c.store[key] = r
+			c.store[key] = &parsed{r}
 			c.storeLock.Unlock()
 
-			ret <- r
+			for _, waiter := range job.waiters {
+				waiter <- r
+			}
 		}()
-
-		return ret
 	}
-	panic("unreachable")
+	return ret
 }
-- 
2.43.0


From 571e644ac766060463d71d46dc2773710650a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:15 +0000
Subject: [PATCH 67/84] fix: strings ending with an escaped backslash were not
 ended when removing comments from json

---
 util/str.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/str.go b/util/str.go
index 9989cb2..4a1c0d7 100644
--- a/util/str.go
+++ b/util/str.go
@@ -121,6 +121,11 @@ func RemoveJsonComments(str string) ([]byte, error) {
 			}
 		}
 
+		// an escaped backslash does not escape the next character
+		if state == 1 && r == '\\' && pr == '\\' {
+			r = utf8.RuneError
+		}
+
 		if state == 0 || state == 1 {
 			sb.WriteRune(next())
 		} else {
-- 
2.43.0


From d9a331191c1722f00b15960a031330e1eb747f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:40 +0000
Subject: [PATCH 68/84] fix: the directory walker went on to further
 directories after a stop

---
 util/walkdir.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/walkdir.go b/util/walkdir.go
index 01c2a26..78d0927 100644
--- a/util/walkdir.go
+++ b/util/walkdir.go
@@ -79,6 +79,12 @@ loop:
 	for {
 		select {
 		case <-w.newJob:
+			select {
+			case <-w.fin: // stopped in the meantime
+				break loop
+			default:
+			}
+
 			dir := w.shift()
 			if dir == "" {
 				continue
-- 
2.43.0


From b2f76862571d08cb3926f0062d3b5c353e3e53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:48 +0000
Subject: [PATCH 69/84] fix: json texts with the replacement character were
 rejected when removing comments

---
 util/str.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/str.go b/util/str.go
index 4a1c0d7..d17767a 100644
--- a/util/str.go
+++ b/util/str.go
@@ -24,7 +24,7 @@ func RemoveJsonComments(str string) ([]byte, error) {
 
 	peek := func(str string) (rune, int, error) {
 		r, s := utf8.DecodeRuneInString(str)
-		if r == utf8.RuneError && s > 0 {
+		if r == utf8.RuneError && s == 1 {
 			return utf8.RuneError, 0, errors.New("deformed json")
 		}
 		return r, s, nil
@@ -33,7 +33,7 @@ func RemoveJsonComments(str string) ([]byte, error) {
 	peekNoWhite := func(str string) (rune, int, error) {
 		for {
 			r, s := utf8.DecodeRuneInString(str)
-			if r == utf8.RuneError && s > 0 {
+			if r == utf8.RuneError && s == 1 {
 				return utf8.RuneError, 0, errors.New("deformed json")
 			}
 
-- 
2.43.0


From c08b8d960269896bb2399acc79b6c95fe7f07525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 70/84] fix: numbers with a leading zero and large hex, octal
 and binary numbers were converted to wrong values

---
 ecma/parser/astutil.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ecma/parser/astutil.go b/ecma/parser/astutil.go
index 4e6757a..3676f2a 100644
--- a/ecma/parser/astutil.go
+++ b/ecma/parser/astutil.go
@@ -58,25 +58,30 @@ func ParseBigint(t string) *big.Int {
 	return i
 }
 
+func parseRadix(t string, radix int) float64 {
+	i, ok := big.NewInt(0).SetString(t, radix)
+	if !ok {
+		return 0
+	}
+	f, _ := new(big.Float).SetInt(i).Float64()
+	return f
+}
+
 func ParseFloat(t string) float64 {
 	t = strings.ReplaceAll(t, "_", "")
 
 	if strings.HasPrefix(t, "0x") || strings.HasPrefix(t, "0X") {
-		f, _ := strconv.ParseUint(t[2:], 16, 32)
-		return float64(f)
+		return parseRadix(t[2:], 16)
 	}
 	if strings.HasPrefix(t, "0o") || strings.HasPrefix(t, "0O") {
-		f, _ := strconv.ParseUint(t[2:], 8, 32)
-		return float64(f)
+		return parseRadix(t[2:], 8)
 	}
 	if strings.HasPrefix(t, "0b") || strings.HasPrefix(t, "0B") {
-		f, _ := strconv.ParseUint(t[2:], 2, 32)
-		return float64(f)
+		return parseRadix(t[2:], 2)
 	}
-	if strings.HasPrefix(t, "0") && len(t) > 1 {
-		t = strings.TrimLeft(t, "0")
-		f, _ := strconv.ParseUint(t, 8, 32)
-		return float64(f)
+	// legacy octal
+	if strings.HasPrefix(t, "0") && len(t) > 1 && strings.Trim(t, "01234567") == "" {
+		return parseRadix(t, 8)
 	}
 	f, _ := strconv.ParseFloat(t, 64)
 	return f
-- 
2.43.0


From e162b5a54ad5faff408bbb046680321f4afabd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 71/84] fix: the evaluator returned values for unsupported
 expressions and wrong values of operators

---
 ecma/exec/vm.go | 251 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 223 insertions(+), 28 deletions(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 1e5f63d..80fd776 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -2,11 +2,15 @@ package exec
 
 import (
 	"container/list"
+	"errors"
 	"fmt"
 	"math"
 	"reflect"
+	"regexp"
 	"strconv"
+	"strings"
 	"time"
+	"unicode"
 
 	"github.com/hsiaosiyuan0/mole/ecma/parser"
 	"github.com/hsiaosiyuan0/mole/ecma/walk"
@@ -30,9 +34,21 @@ var builtinProto = map[reflect.Type]map[string]NativeFn{
 	reflect.TypeOf([]interface{}{}): {
 		"includes": func(this interface{}, args *Args) interface{} {
 			arr := this.([]interface{})
+			if len(args.args) > 1 {
+				return errUnsupported
+			}
 			target := args.Get(0)
 			for _, arg := range arr {
-				if reflect.DeepEqual(arg, target) {
+				if a, ok := arg.(float64); ok && math.IsNaN(a) {
+					if b, ok := target.(float64); ok && math.IsNaN(b) {
+						return true
+					}
+				}
+				eq, err := strictEqual(arg, target)
+				if err != nil {
+					return err
+				}
+				if eq {
 					return true
 				}
 			}
@@ -41,6 +57,28 @@ var builtinProto = map[reflect.Type]map[string]NativeFn{
 	},
 }
 
+// the value of the expression is unknown
+var errUnsupported = errors.New("unsupported expression")
+
+// the types of the nodes whose value can be evaluated, the evaluation of
+// others fails
+var supported = map[parser.NodeType]bool{
+	parser.N_PROG:        true,
+	parser.N_STMT_EXPR:   true,
+	parser.N_EXPR_PAREN:  true,
+	parser.N_EXPR_CHAIN:  true,
+	parser.N_LIT_BOOL:    true,
+	parser.N_LIT_NULL:    true,
+	parser.N_NAME:        true,
+	parser.N_LIT_ARR:     true,
+	parser.N_LIT_NUM:     true,
+	parser.N_LIT_STR:     true,
+	parser.N_EXPR_MEMBER: true,
+	parser.N_EXPR_BIN:    true,
+	parser.N_EXPR_UNARY:  true,
+	parser.N_EXPR_CALL:   true,
+}
+
 func NewExprEvaluator(node parser.Node, p *parser.Parser) *ExprEvaluator {
 	ee := &ExprEvaluator{
 		id:        fmt.Sprintf("expr_evaluator_%d", time.Now().Nanosecond()),
@@ -80,6 +118,16 @@ func (ee *ExprEvaluator) pop() interface{} {
 }
 
 func (ee *ExprEvaluator) init() {
+	for nt := range walk.NodeTypes {
+		if supported[nt] {
+			continue
+		}
+		ee.addListener(walk.NodeBeforeEvent(nt),
+			func(node parser.Node, key string, ctx *walk.VisitorCtx) {
+				ee.err = errUnsupported
+			})
+	}
+
 	ee.addListener(walk.NodeAfterEvent(parser.N_LIT_BOOL),
 		func(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			if ee.err != nil {
@@ -105,7 +153,7 @@ func (ee *ExprEvaluator) init() {
 			}
 
 			name := node.(*parser.Ident).Val()
-			if ctx.ParentNode().Type() == parser.N_EXPR_MEMBER && key == "Prop" {
+			if ctx.ParentNode().Type() == parser.N_EXPR_MEMBER && key == "Prop" && !ctx.ParentNode().(*parser.MemberExpr).Compute() {
 				ee.push(name)
 			} else if name == "undefined" {
 				ee.push(nil)
@@ -124,6 +172,10 @@ func (ee *ExprEvaluator) init() {
 			arrLen := len(n.Elems())
 			arr := make([]interface{}, arrLen)
 			for i := len(n.Elems()) - 1; i >= 0; i-- {
+				if n.Elems()[i] == nil {
+					ee.err = errUnsupported
+					return
+				}
 				arr[i] = ee.pop()
 			}
 			ee.push(arr)
@@ -163,6 +215,9 @@ func (ee *ExprEvaluator) init() {
 				v = GetBuiltinProto(reflect.TypeOf(obj), prop)
 				if IsNativeFn(v) {
 					v = NewBuiltinFn(obj, v.(NativeFn))
+				} else if !isKnownAbsent(obj, prop) {
+					ee.err = errUnsupported
+					return
 				}
 			}
 
@@ -179,29 +234,54 @@ func (ee *ExprEvaluator) init() {
 			rhs := ee.pop()
 			lhs := ee.pop()
 
+			var v interface{}
+			var err error
 			switch n.Op() {
-			case parser.T_EQ, parser.T_EQ_S:
-				ee.push(reflect.DeepEqual(lhs, rhs))
-			case parser.T_NE, parser.T_NE_S:
-				ee.push(!reflect.DeepEqual(lhs, rhs))
-			case parser.T_ADD:
-				ee.push(Add(lhs, rhs))
-			case parser.T_SUB:
-				ee.push(ToNum(lhs) - ToNum(rhs))
-			case parser.T_MUL:
-				ee.push(ToNum(lhs) * ToNum(rhs))
-			case parser.T_DIV:
-				r := ToNum(rhs)
-				if r == 0 {
-					ee.push(math.NaN())
-				} else {
-					ee.push(ToNum(lhs) - r)
+			case parser.T_EQ:
+				v, err = looseEqual(lhs, rhs)
+			case parser.T_EQ_S:
+				v, err = strictEqual(lhs, rhs)
+			case parser.T_NE:
+				var eq bool
+				eq, err = looseEqual(lhs, rhs)
+				v = !eq
+			case parser.T_NE_S:
+				var eq bool
+				eq, err = strictEqual(lhs, rhs)
+				v = !eq
+			case parser.T_ADD, parser.T_SUB, parser.T_MUL, parser.T_DIV:
+				if !isPrimitive(lhs) || !isPrimitive(rhs) {
+					ee.err = errUnsupported
+					return
+				}
+				switch n.Op() {
+				case parser.T_ADD:
+					v = Add(lhs, rhs)
+				case parser.T_SUB:
+					v = ToNum(lhs) - ToNum(rhs)
+				case parser.T_MUL:
+					v = ToNum(lhs) * ToNum(rhs)
+				case parser.T_DIV:
+					v = ToNum(lhs) / ToNum(rhs)
 				}
 			case parser.T_AND:
-				ee.push(ToBool(lhs) && ToBool(rhs))
+				v = lhs
+				if ToBool(lhs) {
+					v = rhs
+				}
 			case parser.T_OR:
-				ee.push(ToBool(lhs) || ToBool(rhs))
+				v = lhs
+				if !ToBool(lhs) {
+					v = rhs
+				}
+			default:
+				err = errUnsupported
+			}
+			if err != nil {
+				ee.err = err
+				return
 			}
+			ee.push(v)
 		})
 
 	ee.addListener(walk.NodeAfterEvent(parser.N_EXPR_UNARY),
@@ -216,8 +296,18 @@ func (ee *ExprEvaluator) init() {
 			switch n.Op() {
 			case parser.T_NOT:
 				ee.push(!ToBool(arg))
+			case parser.T_ADD, parser.T_SUB:
+				if !isPrimitive(arg) {
+					ee.err = errUnsupported
+					return
+				}
+				num := ToNum(arg)
+				if n.Op() == parser.T_SUB {
+					num = -num
+				}
+				ee.push(num)
 			default:
-				ee.push(false)
+				ee.err = errUnsupported
 			}
 		})
 
@@ -237,9 +327,14 @@ func (ee *ExprEvaluator) init() {
 
 			fn := ee.pop()
 			if fo, ok := fn.(*BuiltinFn); ok {
-				ee.push(fo.Call(NewArgs(args)))
+				v := fo.Call(NewArgs(args))
+				if err, ok := v.(error); ok {
+					ee.err = err
+					return
+				}
+				ee.push(v)
 			} else {
-				ee.push(nil)
+				ee.err = errUnsupported
 			}
 		})
 }
@@ -250,6 +345,8 @@ func (ee *ExprEvaluator) Exec(vars map[string]interface{}) *ExprEvaluator {
 	} else {
 		ee.vars = vars
 	}
+	ee.stk.Init()
+	ee.err = nil
 	walk.VisitNode(ee.node, "", ee.walkCtx.VisitorCtx())
 	return ee
 }
@@ -278,18 +375,99 @@ func ToNum(v interface{}) float64 {
 	switch vv := v.(type) {
 	case float64:
 		return vv
+	case int:
+		return float64(vv)
+	case bool:
+		if vv {
+			return 1
+		}
+		return 0
 	case string:
-		if i, err := strconv.ParseFloat(vv, 64); err == nil {
-			return i
+		return strToNum(vv)
+	}
+	return math.NaN()
+}
+
+var strDecimal = regexp.MustCompile(`^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$`)
+
+func strToNum(s string) float64 {
+	s = strings.TrimFunc(s, func(c rune) bool { return unicode.IsSpace(c) && c != 0x85 || c == 0xfeff })
+	switch s {
+	case "":
+		return 0
+	case "Infinity", "+Infinity":
+		return math.Inf(1)
+	case "-Infinity":
+		return math.Inf(-1)
+	}
+	if strDecimal.MatchString(s) {
+		f, _ := strconv.ParseFloat(s, 64)
+		return f
+	}
+	if len(s) > 2 && s[0] == '0' && strings.IndexByte("xXoObB", s[1]) != -1 && !strings.Contains(s, "_") {
+		if i, err := strconv.ParseUint(s, 0, 53); err == nil {
+			return float64(i)
 		}
 	}
 	return math.NaN()
 }
 
+// whether the value is a primitive other than `null` and `undefined`, which
+// are not distinguished
+func isPrimitive(v interface{}) bool {
+	switch v.(type) {
+	case float64, int, bool, string:
+		return true
+	}
+	return false
+}
+
+func strictEqual(a, b interface{}) (bool, error) {
+	if a == nil && b == nil || !isPrimitive(a) && a != nil && !isPrimitive(b) && b != nil {
+		return false, errUnsupported
+	}
+	if i, ok := a.(int); ok {
+		a = float64(i)
+	}
+	if i, ok := b.(int); ok {
+		b = float64(i)
+	}
+	return isPrimitive(a) && isPrimitive(b) && a == b, nil
+}
+
+func looseEqual(a, b interface{}) (bool, error) {
+	if a == nil || b == nil {
+		return a == nil && b == nil, nil
+	}
+	if !isPrimitive(a) || !isPrimitive(b) {
+		return false, errUnsupported
+	}
+	_, sa := a.(string)
+	_, sb := b.(string)
+	if sa && sb {
+		return a == b, nil
+	}
+	return ToNum(a) == ToNum(b), nil
+}
+
+// whether `obj.prop` is `undefined` if it is not found in the own properties
+func isKnownAbsent(obj, prop interface{}) bool {
+	switch obj.(type) {
+	case nil, map[string]interface{}:
+		return true
+	case []interface{}:
+		f, ok := prop.(float64)
+		return ok && f == math.Trunc(f)
+	}
+	return false
+}
+
 func ToStr(v interface{}) string {
 	switch vv := v.(type) {
 	case float64:
-		return strconv.FormatFloat(vv, 'f', -1, 64)
+		return numToStr(vv)
+	case int:
+		return strconv.Itoa(vv)
 	case string:
 		return vv
 	case bool:
@@ -301,10 +479,27 @@ func ToStr(v interface{}) string {
 	return fmt.Sprintf("%v", v)
 }
 
+func numToStr(f float64) string {
+	switch {
+	case math.IsInf(f, 1):
+		return "Infinity"
+	case math.IsInf(f, -1):
+		return "-Infinity"
+	case f == 0:
+		return "0"
+	}
+	if abs := math.Abs(f); abs >= 1e21 || abs < 1e-6 {
+		s := strconv.FormatFloat(f, 'e', -1, 64)
+		s = strings.Replace(s, "e-0", "e-", 1)
+		return strings.Replace(s, "e+0", "e+", 1)
+	}
+	return strconv.FormatFloat(f, 'f', -1, 64)
+}
+
 func ToBool(v interface{}) bool {
 	switch vv := v.(type) {
 	case float64:
-		return vv != 0
+		return vv != 0 && !math.IsNaN(vv)
 	case int:
 		return vv != 0
 	case string:
@@ -364,7 +559,7 @@ func GetElem(obj, prop interface{}) interface{} {
 	}
 
 	i := int(p)
-	if i > len(arr)-1 {
+	if i > len(arr)-1 || ToStr(prop) != strconv.Itoa(i) {
 		return nil
 	}
 	return arr[i]
-- 
2.43.0


From 2cc4f40806b02382aa188b7c37e28fdb9cc736d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 72/84] fix: selecting true branches kept branches behind true
 tests of the outer if and repeated others

---
 ecma/astutil/astutil.go | 42 ++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 8784bdb..5f31fad 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -130,17 +130,23 @@ type SwitchBranch struct {
 	negative bool
 	test     parser.Node
 	body     parser.Node
+
+	// the tests of the outer `if`s whose else-branch contains this branch
+	outer []parser.Node
 }
 
 func IfStmtToSwitchBranches(node *parser.IfStmt) []*SwitchBranch {
 	bs := NodeToSwitchBranches(node.Test())
-	bs = append(bs, &SwitchBranch{false, node.Test(), node.Cons()})
+	bs = append(bs, &SwitchBranch{false, node.Test(), node.Cons(), nil})
 	if node.Alt() != nil {
 		switch node.Alt().Type() {
 		case parser.N_STMT_IF:
-			bs = append(bs, IfStmtToSwitchBranches(node.Alt().(*parser.IfStmt))...)
+			for _, nb := range IfStmtToSwitchBranches(node.Alt().(*parser.IfStmt)) {
+				nb.outer = append(nb.outer, node.Test())
+				bs = append(bs, nb)
+			}
 		default:
-			nb := &SwitchBranch{true, node.Test(), node.Alt()}
+			nb := &SwitchBranch{true, node.Test(), node.Alt(), nil}
 			bs = append(bs, nb)
 		}
 	}
@@ -148,22 +154,22 @@ func IfStmtToSwitchBranches(node *parser.IfStmt) []*SwitchBranch {
 }
 
 func BinExprToSwitchBranch(node *parser.BinExpr) []*SwitchBranch {
-	bs := []*SwitchBranch{{false, nil, node.Lhs()}}
+	bs := []*SwitchBranch{{false, nil, node.Lhs(), nil}}
 	switch node.Op() {
 	case parser.T_AND:
-		bs = append(bs, &SwitchBranch{false, node.Lhs(), node.Rhs()})
+		bs = append(bs, &SwitchBranch{false, node.Lhs(), node.Rhs(), nil})
 	case parser.T_OR:
-		bs = append(bs, &SwitchBranch{true, node.Lhs(), node.Rhs()})
+		bs = append(bs, &SwitchBranch{true, node.Lhs(), node.Rhs(), nil})
 	default:
-		bs = append(bs, &SwitchBranch{true, nil, node.Rhs()})
+		bs = append(bs, &SwitchBranch{true, nil, node.Rhs(), nil})
 	}
 	return bs
 }
 
 func CondExprToSwitchBranches(node *parser.CondExpr) []*SwitchBranch {
 	bs := []*SwitchBranch{}
-	bs = append(bs, &SwitchBranch{false, node.Test(), node.Cons()})
-	bs = append(bs, &SwitchBranch{true, node.Test(), node.Alt()})
+	bs = append(bs, &SwitchBranch{false, node.Test(), node.Cons(), nil})
+	bs = append(bs, &SwitchBranch{true, node.Test(), node.Alt(), nil})
 	return bs
 }
 
@@ -183,16 +189,22 @@ func NodeToSwitchBranches(node parser.Node) []*SwitchBranch {
 func SelectTrueBranches(node parser.Node, vars map[string]interface{}, p *parser.Parser) []parser.Node {
 	bs := NodeToSwitchBranches(node)
 	tbs := []parser.Node{}
+	// branches are kept if their tests cannot be evaluated
+	unless := func(test parser.Node, cond bool) bool {
+		v, err := exec.NewExprEvaluator(test, p).Exec(vars).GetResult()
+		return err == nil && exec.ToBool(v) == cond
+	}
+next:
 	for _, b := range bs {
-		if b.test == nil {
-			tbs = append(tbs, b.body)
+		for _, test := range b.outer {
+			if unless(test, true) {
+				continue next
+			}
 		}
-		v, err := exec.NewExprEvaluator(b.test, p).Exec(vars).GetResult()
-		if err != nil {
+		if b.test != nil && unless(b.test, b.negative) {
 			continue
 		}
-		bv := exec.ToBool(v)
-		if (!b.negative && bv || b.negative && !bv) && b.body != nil {
+		if b.body != nil {
 			tbs = append(tbs, b.body)
 		}
 	}
-- 
2.43.0


From 1097abe7b3fed13501b02a0fe9f0458755082fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:00 +0000
Subject: [PATCH 73/84] fix: the lexer did not terminate on templates with the
 replacement character or invalid utf-8

---
 ecma/parser/lexer.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index ef20702..bfbc6f6 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -574,8 +574,6 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 				return
 			}
 			text = utf8.AppendRune(text, r)
-		} else if c == utf8.RuneError {
-			errEscape = ERR_BAD_RUNE
 		} else if c == span.EOF {
 			err = ERR_UNTERMINATED_TPL
 			return
-- 
2.43.0


From 12ac450a0997aff250cbc2a259bd98a89ef0b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:00 +0000
Subject: [PATCH 74/84] fix: bad hex escapes in tagged templates swallowed the
 end of the template

---
 ecma/parser/lexer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index bfbc6f6..8eaa622 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1259,10 +1259,12 @@ func (l *Lexer) readOctalEscapeSeq(first rune) (rune, string, int) {
 
 func (l *Lexer) readHexEscapeSeq() (rune, string) {
 	hex := [2]rune{}
-	hex[0] = l.src.Read()
-	hex[1] = l.src.Read()
-	if !IsHexDigit(hex[0]) || !IsHexDigit(hex[1]) {
-		return utf8.RuneError, ERR_BAD_ESCAPE_SEQ
+	for i := range hex {
+		// the character which is not a digit is not a part of the escape, it can be the end of the literal
+		if !IsHexDigit(l.src.Peek()) {
+			return utf8.RuneError, ERR_BAD_ESCAPE_SEQ
+		}
+		hex[i] = l.src.Read()
 	}
 	r, err := strconv.ParseInt(string(hex[:]), 16, 32)
 	if err != nil {
-- 
2.43.0


From 8e2789d29628431a30c38ae7e0577195e34e5858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:00 +0000
Subject: [PATCH 75/84] fix: null escapes in templates and octal escapes of
 strings in interpolations were rejected

---
 ecma/parser/lexer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 8eaa622..927cdc9 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -555,7 +555,7 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 				continue
 			}
 
-			r, e, lo := l.readEscapeSeq()
+			r, e, lo := l.readEscapeSeq(true)
 			if !legacyOctalEscapeSeq && lo {
 				legacyOctalEscapeSeq = lo
 			}
@@ -1126,7 +1126,7 @@ func (l *Lexer) readStr() *Token {
 				}
 				l.readLineTerm() // LineContinuation
 			} else {
-				r, err, lo := l.readEscapeSeq()
+				r, err, lo := l.readEscapeSeq(false)
 				if !legacyOctalEscapeSeq && lo {
 					legacyOctalEscapeSeq = lo
 				}
@@ -1189,7 +1189,8 @@ func (l *Lexer) readJsxStr() *Token {
 	return l.finToken(tok, T_STRING)
 }
 
-func (l *Lexer) readEscapeSeq() (r rune, errMsg string, octalEscapeSeq bool) {
+// `tpl` indicates the escape is in the characters of a template
+func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq bool) {
 	c := l.src.Read()
 	switch c {
 	case 'b':
@@ -1212,7 +1213,7 @@ func (l *Lexer) readEscapeSeq() (r rune, errMsg string, octalEscapeSeq bool) {
 		return
 	case '0', '1', '2', '3', '4', '5', '6', '7':
 		var i int
-		r, errMsg, i = l.readOctalEscapeSeq(c)
+		r, errMsg, i = l.readOctalEscapeSeq(c, tpl)
 		octalEscapeSeq = r != 0 || i != 1
 		return
 	case 'x':
@@ -1231,12 +1232,15 @@ func (l *Lexer) readEscapeSeq() (r rune, errMsg string, octalEscapeSeq bool) {
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-lexical-grammar.html#prod-LegacyOctalEscapeSequence
-func (l *Lexer) readOctalEscapeSeq(first rune) (rune, string, int) {
+func (l *Lexer) readOctalEscapeSeq(first rune, tpl bool) (rune, string, int) {
 	octal := make([]rune, 0, 3)
 	octal = append(octal, first)
 	zeroToThree := first >= '0' && first <= '3'
 	i := 1
-	if l.IsMode(LM_TEMPLATE) {
+	if tpl {
+		if first == '0' && !IsDecimalDigit(l.src.Peek()) {
+			return 0, "", 1
+		}
 		return utf8.RuneError, ERR_TPL_LEGACY_OCTAL_ESCAPE_IN, 0
 	}
 	for {
-- 
2.43.0


From 7f9cbb0bc8ebd7aa2c561950d358e2192cf7cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:00 +0000
Subject: [PATCH 76/84] fix: escapes of 8 and 9 were accepted in templates and
 strict code

---
 ecma/parser/lexer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 927cdc9..df984fa 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1214,7 +1214,14 @@ func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq b
 	case '0', '1', '2', '3', '4', '5', '6', '7':
 		var i int
 		r, errMsg, i = l.readOctalEscapeSeq(c, tpl)
-		octalEscapeSeq = r != 0 || i != 1
+		octalEscapeSeq = r != 0 || i != 1 || IsDecimalDigit(l.src.Peek())
+		return
+	case '8', '9':
+		r = c
+		octalEscapeSeq = true
+		if tpl {
+			errMsg = ERR_TPL_LEGACY_OCTAL_ESCAPE_IN
+		}
 		return
 	case 'x':
 		r, errMsg = l.readHexEscapeSeq()
-- 
2.43.0


From dda6f0ac366d9aac42014310fff0cc698f6af48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:00 +0000
Subject: [PATCH 77/84] fix: escaped surrogate pairs were replaced by two
 replacement characters

---
 ecma/parser/lexer.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index df984fa..4fb7a81 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strconv"
 	"unicode"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	span "github.com/hsiaosiyuan0/mole/span"
@@ -1231,6 +1232,8 @@ func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq b
 		r, err = l.readUnicodeEscapeSeq(false, l.src.Ofst())
 		if err != nil {
 			errMsg = err.msg
+		} else if utf16.IsSurrogate(r) {
+			r = l.readLowSurrogate(r)
 		}
 		return
 	}
@@ -1238,6 +1241,23 @@ func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq b
 	return
 }
 
+// combines the surrogate `r` with the one escaped right after it if they're a pair
+func (l *Lexer) readLowSurrogate(r rune) rune {
+	if !l.src.AheadIsChs2('\\', 'u') {
+		return r
+	}
+	l.src.PushState()
+	l.src.Read()
+	l.src.Read()
+	low, err := l.readUnicodeEscapeSeq(false, l.src.Ofst())
+	if pair := utf16.DecodeRune(r, low); err == nil && pair != utf8.RuneError {
+		l.src.DiscardState()
+		return pair
+	}
+	l.src.PopState()
+	return r
+}
+
 // https://tc39.es/ecma262/multipage/ecmascript-language-lexical-grammar.html#prod-LegacyOctalEscapeSequence
 func (l *Lexer) readOctalEscapeSeq(first rune, tpl bool) (rune, string, int) {
 	octal := make([]rune, 0, 3)
-- 
2.43.0


From fce50b7c1d24330fdb12f73932598540aabd7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:26 +0000
Subject: [PATCH 78/84] fix: strings whose value is empty after line
 continuations got their text as value

---
 ecma/parser/astutil.go | 4 ++++
 ecma/parser/lexer.go   | 4 ++--
 ecma/parser/token.go   | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/astutil.go b/ecma/parser/astutil.go
index 3676f2a..21aa6ba 100644
--- a/ecma/parser/astutil.go
+++ b/ecma/parser/astutil.go
@@ -129,6 +129,10 @@ func TokText(t *Token, s *span.Source) string {
 		return ""
 	}
 
+	if str, ok := t.ext.(*TokExtStr); ok && str.Escaped {
+		return t.text
+	}
+
 	if !t.txt.Empty() {
 		t.text = s.RngText(t.txt)
 	} else if t.rng.Valid() {
diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 4fb7a81..f660bb3 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1167,7 +1167,7 @@ func (l *Lexer) readStr() *Token {
 		tok.text = util.Bytes2str(&buf)
 	}
 
-	tok.ext = &TokExtStr{open, legacyOctalEscapeSeq}
+	tok.ext = &TokExtStr{open, legacyOctalEscapeSeq, buf != nil}
 	return l.finToken(tok, T_STRING)
 }
 
@@ -1186,7 +1186,7 @@ func (l *Lexer) readJsxStr() *Token {
 		}
 	}
 
-	tok.ext = &TokExtStr{open, false}
+	tok.ext = &TokExtStr{open, false, false}
 	return l.finToken(tok, T_STRING)
 }
 
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index 703feec..f74466a 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -121,6 +121,7 @@ func (t *Token) ErrMsg() string {
 type TokExtStr struct {
 	Open                 rune
 	LegacyOctalEscapeSeq bool
+	Escaped              bool // whether there are escapes or line continuations
 }
 
 type TokExtIdent struct {
-- 
2.43.0


From 9a95a93f4ed6f39492702b521c957fa57f4defd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:20 +0000
Subject: [PATCH 79/84] fix: regular expressions after keywords and divisions
 after null, true, false and templates were rejected

---
 ecma/parser/lexer.go  | 17 ++++++++++++++++-
 ecma/parser/parser.go |  8 ++++++--
 ecma/parser/token.go  | 34 +++++++++++++++++-----------------
 3 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index f660bb3..955b841 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -589,6 +589,22 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 	return
 }
 
+// the parser expects an expression and met `/` or `/=`, so that is the beginning of a regexp. It's
+// the other way to tell the regexps besides `aheadIsRegexp`, which cannot do that after the keywords
+// since they can be the names of properties: `a.return / b / c`
+func (l *Lexer) reviseRegexp(tok *Token) *Token {
+	if l.state.tb.len != 1 {
+		return tok
+	}
+	eq := tok.value == T_ASSIGN_DIV
+	tok = l.readRegexp(tok)
+	if ext, ok := tok.ext.(*TokExtRegexp); ok && eq {
+		ext.pattern.Lo -= 1
+	}
+	l.state.prtVal = tok.value
+	return tok
+}
+
 // https://tc39.es/ecma262/multipage/ecmascript-language-lexical-grammar.html#prod-IdentifierName
 func (l *Lexer) readName(jsx bool) *Token {
 	tok := l.newToken()
@@ -1219,7 +1235,6 @@ func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq b
 		return
 	case '8', '9':
 		r = c
-		octalEscapeSeq = true
 		if tpl {
 			errMsg = ERR_TPL_LEGACY_OCTAL_ESCAPE_IN
 		}
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0179347..092d4c5 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4261,7 +4261,7 @@ func (p *Parser) yieldExpr() (Node, error) {
 	tok = p.lexer.Peek()
 	kind := TokenKinds[tok.value]
 	tv := tok.value
-	startExpr := kind.StartExpr || p.feat&FEAT_JSX != 0 && tv == T_LT
+	startExpr := kind.StartExpr || tv == T_AWAIT || tv == T_DIV || tv == T_ASSIGN_DIV || p.feat&FEAT_JSX != 0 && tv == T_LT
 	if tok.afterLineTerm || !startExpr && tv != T_MUL {
 		return &YieldExpr{N_EXPR_YIELD, p.finRng(rng), false, nil, span.Range{}}, nil
 	}
@@ -4461,7 +4461,8 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 	scope := p.scope()
 
 	ahead := p.lexer.Peek()
-	if !TokenKinds[ahead.value].StartExpr && ahead.value != T_AWAIT {
+	regexp := scope.IsKind(SPK_ASYNC) && (ahead.value == T_DIV || ahead.value == T_ASSIGN_DIV)
+	if !TokenKinds[ahead.value].StartExpr && ahead.value != T_AWAIT && !regexp {
 		if p.feat&FEAT_MODULE != 0 {
 			// report friendly message for expr like: `async function foo(await) {}`
 			if ahead.value == T_PAREN_R || ahead.value == T_COMMA {
@@ -5927,6 +5928,9 @@ func (p *Parser) memberExprPropDot(obj Node, opt bool) (Node, error) {
 
 func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 	tok := p.lexer.Peek()
+	if tok.value == T_DIV || tok.value == T_ASSIGN_DIV {
+		tok = p.lexer.reviseRegexp(tok)
+	}
 
 	switch tok.value {
 	case T_NUM:
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index f74466a..fb8a05c 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -352,15 +352,15 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_COMMENT, "comment", 0, false, false, false},
 
 	// literals
-	{T_NULL, "null", 0, false, true, true},
-	{T_TRUE, "true", 0, false, true, true},
-	{T_FALSE, "false", 0, false, true, true},
+	{T_NULL, "null", 0, false, false, true},
+	{T_TRUE, "true", 0, false, false, true},
+	{T_FALSE, "false", 0, false, false, true},
 	{T_NUM, "number", 0, false, false, true},
 	{T_STRING, "string", 0, false, false, true},
 
-	{T_TPL_HEAD, "template head", 0, false, true, true},
+	{T_TPL_HEAD, "template head", 0, false, false, true},
 	{T_TPL_SPAN, "template span", 0, false, false, false},
-	{T_TPL_TAIL, "template tail", 0, false, true, false},
+	{T_TPL_TAIL, "template tail", 0, false, false, false},
 
 	{T_NAME, "identifier", 0, false, false, true},
 	{T_NAME_PVT, "private identifier", 0, false, false, false},
@@ -368,28 +368,28 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	// keywords
 	{T_KEYWORD_BEGIN, "keyword begin", 0, false, false, false},
 	{T_BREAK, "break", 0, false, false, false},
-	{T_CASE, "case", 0, false, true, false},
+	{T_CASE, "case", 0, false, false, false},
 	{T_CATCH, "catch", 0, false, false, false},
 	{T_CLASS, "class", 0, false, false, true},
 	{T_CONTINUE, "continue", 0, false, false, false},
 	{T_DEBUGGER, "debugger", 0, false, false, false},
-	{T_DEFAULT, "default", 0, false, true, false},
-	{T_DO, "do", 0, false, true, false},
-	{T_ELSE, "else", 0, false, true, false},
+	{T_DEFAULT, "default", 0, false, false, false},
+	{T_DO, "do", 0, false, false, false},
+	{T_ELSE, "else", 0, false, false, false},
 	{T_ENUM, "enum", 0, false, false, false},
 	{T_EXPORT, "export", 0, false, false, false},
-	{T_EXTENDS, "extends", 0, false, true, false},
+	{T_EXTENDS, "extends", 0, false, false, false},
 	{T_FINALLY, "finally", 0, false, false, false},
 	{T_FOR, "for", 0, false, false, false},
 	{T_FUNC, "function", 0, false, false, true},
 	{T_IF, "if", 0, false, false, false},
 	{T_IMPORT, "import", 0, false, false, true},
-	{T_NEW, "new", 0, true, true, true},
-	{T_RETURN, "return", 0, false, true, false},
+	{T_NEW, "new", 0, true, false, true},
+	{T_RETURN, "return", 0, false, false, false},
 	{T_SUPER, "super", 0, false, false, true},
 	{T_SWITCH, "switch", 0, false, false, false},
 	{T_THIS, "this", 0, false, false, true},
-	{T_THROW, "throw", 0, false, true, false},
+	{T_THROW, "throw", 0, false, false, false},
 	{T_TRY, "try", 0, false, false, false},
 	{T_VAR, "var", 0, false, false, false},
 	{T_WHILE, "while", 0, false, false, false},
@@ -408,7 +408,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_PRIVATE, "private", 0, false, false, false},
 	{T_PROTECTED, "protected", 0, false, false, false},
 	{T_PUBLIC, "public", 0, false, false, false},
-	{T_YIELD, "yield", 0, true, true, true},
+	{T_YIELD, "yield", 0, true, false, true},
 	{T_CTX_KEYWORD_STRICT_END, "contextual keyword strict end", 0, false, false, false},
 	{T_AS, "as", 0, false, false, false},
 	{T_ASYNC, "async", 0, false, false, false},
@@ -416,7 +416,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_FROM, "from", 0, false, false, false},
 	{T_GET, "get", 0, false, false, false},
 	{T_META, "meta", 0, false, false, false},
-	{T_OF, "of", 0, false, true, false},
+	{T_OF, "of", 0, false, false, false},
 	{T_SET, "set", 0, false, false, false},
 	{T_TARGET, "target", 0, false, false, false},
 	{T_CTX_KEYWORD_END, "contextual keyword end", 0, false, false, false},
@@ -466,8 +466,8 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_OR, "||", 6, false, true, false},
 	{T_AND, "&&", 7, false, true, false},
 
-	{T_INSTANCE_OF, "instanceof", 12, false, true, false},
-	{T_IN, "in", 12, false, true, false},
+	{T_INSTANCE_OF, "instanceof", 12, false, false, false},
+	{T_IN, "in", 12, false, false, false},
 
 	{T_ADD, "+", 14, false, true, true},
 	{T_SUB, "-", 14, false, true, true},
-- 
2.43.0


From 5cc6d55f6e28fc809c96a40e43228e81e7c63783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:05 +0000
Subject: [PATCH 80/84] fix: decimals with a leading zero were rejected

---
 ecma/parser/lexer.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 955b841..c9d5642 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1360,15 +1360,13 @@ func (l *Lexer) readNum() *Token {
 		}
 		nc := l.src.Peek()
 		if IsDecimalDigit(nc) {
-			if IsOctalDigit(nc) {
-				if l.IsMode(LM_STRICT) {
+			if l.IsMode(LM_STRICT) {
+				if IsOctalDigit(nc) {
 					return l.errTokMsg(tok, ERR_LEGACY_OCTAL_IN_STRICT_MODE)
-				} else {
-					return l.readOctalNum(tok, 1)
 				}
-			} else {
 				return l.errTokMsg(tok, ERR_INVALID_NUMBER)
 			}
+			return l.readOctalNum(tok, 1)
 		}
 	}
 	return l.readDecimalNum(tok, c)
@@ -1525,7 +1523,9 @@ func (l *Lexer) readBinaryNum(tok *Token) *Token {
 
 func (l *Lexer) readOctalNum(tok *Token, i int) *Token {
 	legacy := i == 1
-	l.src.Read()
+	if !legacy {
+		l.src.Read() // consume `o` or `O`
+	}
 	var last rune
 	for {
 		c := l.src.Peek()
@@ -1545,6 +1545,8 @@ func (l *Lexer) readOctalNum(tok *Token, i int) *Token {
 			last = c
 			l.src.Read()
 			i += 1
+		} else if legacy && IsDecimalDigit(c) {
+			return l.readLegacyDecimalNum(tok)
 		} else {
 			break
 		}
@@ -1568,6 +1570,19 @@ func (l *Lexer) readOctalNum(tok *Token, i int) *Token {
 	return l.finToken(tok, T_NUM)
 }
 
+// the digits after the leading zero are not all octal ones
+//
+// https://tc39.es/ecma262/multipage/ecmascript-language-lexical-grammar.html#prod-NonOctalDecimalIntegerLiteral
+func (l *Lexer) readLegacyDecimalNum(tok *Token) *Token {
+	for IsDecimalDigit(l.src.Peek()) {
+		l.src.Read()
+	}
+	if l.src.AheadIsCh('n') {
+		return l.errTokMsg(nil, ERR_IDENT_AFTER_NUMBER)
+	}
+	return l.readDecimalNum(tok, '0')
+}
+
 func (l *Lexer) readHexNum(tok *Token) *Token {
 	l.src.Read()
 	i := 0
-- 
2.43.0


From cb5095fb76dac9b5603757f9c19aab048da77fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:54 +0000
Subject: [PATCH 81/84] fix: regular expressions ended at the wrong slash and
 unicode escapes were checked without the flag u

---
 ecma/parser/lexer.go | 63 ++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index c9d5642..1f395fe 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1,7 +1,7 @@
 package parser
 
 import (
-	"container/list"
+	"bytes"
 	"fmt"
 	"strconv"
 	"unicode"
@@ -1004,14 +1004,14 @@ func (l *Lexer) readSinglelineComment(tok *Token) *Token {
 func (l *Lexer) readRegexp(tok *Token) *Token {
 	pattern := l.src.NewOpenRange()
 
-	couples := list.New()
-	rng := false
-	rngLen := 0
+	groups := 0
+	class := false
+	var errEscape *FixedOfstErr
 
 	for {
 		c := l.src.Peek()
-		if c == utf8.RuneError {
-			return l.errTok(tok)
+		if c == span.EOF {
+			return l.errTokMsg(tok, ERR_UNTERMINATED_REGEXP)
 		} else if span.IsLineTerminator(c) {
 			return l.errTokMsg(nil, ERR_UNTERMINATED_REGEXP)
 		}
@@ -1022,8 +1022,8 @@ func (l *Lexer) readRegexp(tok *Token) *Token {
 			if nc == 'u' {
 				l.src.Read()
 				_, err := l.readUnicodeEscapeSeq(false, ofst)
-				if err != nil {
-					return l.errTokOfst(tok, err.msg, err.ofst)
+				if err != nil && errEscape == nil {
+					errEscape = err
 				}
 			} else if !span.IsLineTerminator(nc) {
 				l.src.Read()
@@ -1031,37 +1031,25 @@ func (l *Lexer) readRegexp(tok *Token) *Token {
 			continue
 		}
 
-		if (c == '(' || c == '[') && !rng {
-			rng = c == '['
-			couples.PushBack(c)
-		} else if (c == ')' && !rng) || (c == ']' && rngLen > 0) {
-			last := couples.Back()
-			if last == nil && c == ')' { // `]` doest not own the exception
+		if c == '/' && !class {
+			break
+		} else if c == '[' {
+			class = true
+		} else if c == ']' {
+			class = false
+		} else if c == '(' && !class {
+			groups += 1
+		} else if c == ')' && !class {
+			groups -= 1
+			if groups < 0 {
 				return l.errTokMsg(tok, ERR_UNTERMINATED_REGEXP)
 			}
-			lhs := utf8.RuneError
-			if last != nil {
-				lhs = last.Value.(rune)
-			}
-			if (c == ')' && lhs == '(') || (c == ']' && lhs == '[') {
-				couples.Remove(last)
-				if c == ']' {
-					rng = false
-				}
-			} else if c == ')' { // `]` doest not own the exception
-				l.errTokMsg(tok, ERR_UNTERMINATED_REGEXP)
-			}
-		} else if c == '/' && couples.Len() == 0 {
-			break
-		} else if c == span.EOF {
-			return l.errTokMsg(tok, ERR_UNTERMINATED_REGEXP)
-		}
-
-		if rng {
-			rngLen += 1
 		}
 		l.src.Read()
 	}
+	if groups > 0 {
+		return l.errTokMsg(tok, ERR_UNTERMINATED_REGEXP)
+	}
 	pattern.Hi = l.src.Ofst()
 	l.src.Read() // consume the end `/`
 
@@ -1077,9 +1065,14 @@ func (l *Lexer) readRegexp(tok *Token) *Token {
 		i = len(fs)
 	}
 
+	// unicode escapes are escapes of the letter `u` without the flag `u`
+	if errEscape != nil && bytes.IndexByte(fs, 'u') >= 0 {
+		return l.errTokOfst(tok, errEscape.msg, errEscape.ofst)
+	}
+
 	if l.feat&FEAT_CHK_REGEXP_FLAGS != 0 {
 		for _, f := range fs {
-			if !l.isLegalFlag(rune(f)) {
+			if !l.isLegalFlag(rune(f)) || bytes.Count(fs, []byte{f}) > 1 {
 				return l.errTokMsg(tok, ERR_INVALID_REGEXP_FLAG)
 			}
 		}
-- 
2.43.0


From 6d502115239676f77caa293c046950401f383691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:54 +0000
Subject: [PATCH 82/84] fix: numeric separators after the first digit were
 rejected

---
 ecma/parser/lexer.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 1f395fe..cb452a6 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1368,10 +1368,10 @@ func (l *Lexer) readNum() *Token {
 func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 	if first != '.' && first != '0' {
 		c := l.src.Peek()
-		if c != 'e' && c != 'E' && c != 'n' && IsIdStart(c) {
+		if c != 'e' && c != 'E' && c != 'n' && c != '_' && IsIdStart(c) {
 			return l.errTokOfst(nil, ERR_IDENT_AFTER_NUMBER, l.src.Ofst())
 		}
-		if err := l.readDecimalDigits(true); err != "" {
+		if err := l.readDecimalDigits(true, 1); err != "" {
 			if err == ERR_NUM_SEP_END {
 				tok := l.newToken()
 				return l.errTokOfst(tok, err, l.src.Ofst()-1)
@@ -1387,7 +1387,7 @@ func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 			float = true
 		}
 		// read the fraction part
-		if err := l.readDecimalDigits(true); err != "" {
+		if err := l.readDecimalDigits(true, 0); err != "" {
 			if err == ERR_NUM_SEP_END {
 				tok := l.newToken()
 				return l.errTokMsg(tok, err)
@@ -1429,12 +1429,11 @@ func (l *Lexer) readExpPart() string {
 	if l.src.AheadIsChOr('+', '-') {
 		l.src.Read()
 	}
-	return l.readDecimalDigits(false)
+	return l.readDecimalDigits(false, 0)
 }
 
-func (l *Lexer) readDecimalDigits(opt bool) string {
-	i := 0
-
+// `i` is the number of the digits which are already read
+func (l *Lexer) readDecimalDigits(opt bool, i int) string {
 	var last rune
 	for {
 		c := l.src.Peek()
-- 
2.43.0


From 0c18c88da92ac1bfff7978b3421343a0d35128f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 83/84] fix: the parser crashed on unterminated strings in
 place of property names

---
 ecma/parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index cb452a6..fc24e9c 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1829,6 +1829,8 @@ func (l *Lexer) errTokOfst(tok *Token, msg string, ofst uint32) *Token {
 		tok = l.newToken()
 	}
 	tok.rng.Lo = ofst
+	tok.rng.Hi = l.src.Ofst()
+	tok.txt = span.Range{}
 	tok.ext = msg
 	return tok
 }
-- 
2.43.0


From ac7731556ac406d2e8b3f8b078f5f7192ce365a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:50 +0000
Subject: [PATCH 84/84] fix: escaped replacement characters and lone surrogates
 in templates were rejected

---
 ecma/parser/lexer.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index fc24e9c..99de78e 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -562,12 +562,8 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 			}
 
 			// just records the first occurred escape error
-			if errEscape == "" {
-				if e != "" {
-					errEscape = e
-				} else if r == utf8.RuneError {
-					errEscape = ERR_BAD_ESCAPE_SEQ
-				}
+			if errEscape == "" && e != "" {
+				errEscape = e
 			}
 
 			if r == span.EOF {
-- 
2.43.0

