// Package mole wraps the public API of the code under test.
package mole

import (
	"encoding/json"
	"fmt"
	"runtime/debug"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
)

// Feats maps a mode name to the parser features used for it.
func Opts(mode string) *parser.ParserOpts {
	o := parser.NewParserOpts()
	switch mode {
	case "script": // sloppy script
		o.Feature = o.Feature.Off(parser.FEAT_STRICT | parser.FEAT_MODULE | parser.FEAT_GLOBAL_ASYNC | parser.FEAT_JSX)
	case "strict": // strict script
		o.Feature = o.Feature.Off(parser.FEAT_MODULE | parser.FEAT_GLOBAL_ASYNC | parser.FEAT_JSX)
	case "module":
		o.Feature = o.Feature.Off(parser.FEAT_JSX | parser.FEAT_GLOBAL_ASYNC)
	case "moduleasync":
		o.Feature = o.Feature.Off(parser.FEAT_JSX)
	case "jsx": // sloppy script with JSX
		o.Feature = o.Feature.Off(parser.FEAT_STRICT | parser.FEAT_MODULE | parser.FEAT_GLOBAL_ASYNC)
	case "ts":
		o.Feature = o.Feature.Off(parser.FEAT_JSX | parser.FEAT_GLOBAL_ASYNC).On(parser.FEAT_TS)
	case "tsscript":
		o.Feature = o.Feature.Off(parser.FEAT_STRICT | parser.FEAT_MODULE | parser.FEAT_JSX | parser.FEAT_GLOBAL_ASYNC).On(parser.FEAT_TS)
	case "tsx":
		o.Feature = o.Feature.Off(parser.FEAT_GLOBAL_ASYNC).On(parser.FEAT_TS)
	case "default":
	default:
		panic("mode " + mode)
	}
	return o
}

type Res struct {
	Prog  *parser.Prog
	P     *parser.Parser
	Err   error
	Panic string
}

func (r *Res) Ok() bool { return r.Err == nil && r.Panic == "" }
func (r *Res) String() string {
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if r.Err != nil {
		return "error: " + r.Err.Error()
	}
	return "accepted"
}

func Parse(code string, o *parser.ParserOpts) (r Res) {
	defer func() {
		if e := recover(); e != nil {
			r.Panic = fmt.Sprint(e) + "\n" + string(debug.Stack())
		}
	}()
	p := parser.NewParser(span.NewSource("", code), o)
	ast, err := p.Prog()
	r.P = p
	if err != nil {
		r.Err = err
		return
	}
	r.Prog = ast.(*parser.Prog)
	return
}

// Estree converts to ESTree and decodes its JSON form.
func (r *Res) Estree(linecol bool) (v interface{}, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e) + "\n" + string(debug.Stack())
		}
	}()
	ctx := estree.NewConvertCtx(r.P)
	ctx.LineCol = linecol
	b, err := json.Marshal(estree.ConvertProg(r.Prog, ctx))
	if err != nil {
		return nil, "marshal: " + err.Error()
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, "unmarshal: " + err.Error()
	}
	return
}
