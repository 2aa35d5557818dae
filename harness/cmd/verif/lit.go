package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf16"

	"github.com/hsiaosiyuan0/mole/ecma/parser"

	"verif/harness/internal/core"
	"verif/harness/internal/mole"
	"verif/harness/internal/tlc"
)

var litText = map[string]string{"BS": `\`, "SQ": "'", "DQ": `"`, "BT": "`", "LF": "\n", "CR": "\r", "LS": "\u2028", "PS": "\u2029",
	"E2": "é", "E4": "😀", "FD": "\ufffd", "HOLE": "${b}"}

func litSpell(ws string) string {
	var b strings.Builder
	for _, w := range strings.Fields(ws) {
		if t, ok := litText[w]; ok {
			w = t
		}
		b.WriteString(w)
	}
	return b.String()
}

// litUnits: the value as UTF-16; surrogates which are no pairs cannot be represented in UTF-8 and are U+FFFD
func litValue(ws string) string {
	var us []uint16
	for _, w := range strings.Fields(ws) {
		if w[0] == '#' && len(w) > 1 {
			n, err := strconv.Atoi(w[1:])
			if err != nil {
				core.Fatal("bad code %s", w)
			}
			if n > 0xffff {
				us = append(us, utf16.Encode([]rune{rune(n)})...)
			} else {
				us = append(us, uint16(n))
			}
			continue
		}
		us = append(us, utf16.Encode([]rune(litSpell(w)))...)
	}
	return string(utf16.Decode(us))
}

func litNumber(f []string) (val float64, fin bool, bigint string) {
	rad, _ := strconv.Atoi(f[0])
	fr, _ := strconv.Atoi(f[2])
	m, ok := new(big.Int).SetString(f[1], rad)
	if !ok {
		core.Fatal("bad digits %v", f)
	}
	if f[4] == "TRUE" {
		return 0, true, m.String()
	}
	ex := 0
	if f[3] != "" {
		ex, _ = strconv.Atoi(strings.TrimPrefix(f[3], "+"))
		if ex > 100000 {
			ex = 100000
		}
		if ex < -100000 {
			ex = -100000
		}
	}
	ex -= fr
	r := new(big.Rat).SetInt(m)
	if m.Sign() != 0 {
		if ex > 400 || ex < -400-len(f[1]) {
			if ex > 0 {
				return 0, false, ""
			}
			return 0, true, ""
		}
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(ex))), nil)
		if ex >= 0 {
			r.Mul(r, new(big.Rat).SetInt(p))
		} else {
			r.Quo(r, new(big.Rat).SetInt(p))
		}
	}
	v, _ := r.Float64()
	if v > 1.7976931348623157e308 {
		return 0, false, ""
	}
	return v, true, ""
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// litCtx: a place where a literal can stand, and the path to it in the tree
type litCtx struct {
	pre, post string
	path      []interface{}
	tagged    bool
}

var litCtxs = []litCtx{
	{"", "", []interface{}{"body", 0, "expression"}, false},
	{"(", ")", []interface{}{"body", 0, "expression"}, false},
	{"x = ", ";", []interface{}{"body", 0, "expression", "right"}, false},
	{"[", ", a]", []interface{}{"body", 0, "expression", "elements", 0}, false},
	{"if (a) b(", "\n)", []interface{}{"body", 0, "consequent", "expression", "arguments", 0}, false},
	{"({a: ", "})", []interface{}{"body", 0, "expression", "properties", 0, "value"}, false},
	{"`${", "}`", []interface{}{"body", 0, "expression", "expressions", 0}, false},
	{"function f() { return ", " }", []interface{}{"body", 0, "body", "body", 0, "argument"}, false},
}

func litDig(v interface{}, path []interface{}) (map[string]interface{}, bool) {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, ok := v.(map[string]interface{})
			if !ok {
				return nil, false
			}
			v = m[k]
		case int:
			l, ok := v.([]interface{})
			if !ok || k >= len(l) {
				return nil, false
			}
			v = l[k]
		}
	}
	m, ok := v.(map[string]interface{})
	return m, ok
}

// litCompare: "" or how the node differs from the specified value
func litCompare(kind, val, src string, n map[string]interface{}) string {
	switch kind {
	case "num":
		f := strings.Split(val, ";")
		v, fin, bi := litNumber(f)
		if n["type"] != "Literal" {
			return fmt.Sprint("is a ", n["type"])
		}
		if bi != "" {
			if n["bigint"] != bi {
				return fmt.Sprintf("bigint %v, expected %s", n["bigint"], bi)
			}
			return ""
		}
		if g, ok := n["value"].(float64); !ok || (fin && g != v) {
			return fmt.Sprintf("value %v, expected %v", n["value"], v)
		}
		if b, ok := n["bigint"]; ok && b != nil {
			return "is a bigint"
		}
		if n["raw"] != src {
			return fmt.Sprintf("raw %q", n["raw"])
		}
	case "str":
		if n["type"] != "Literal" {
			return fmt.Sprint("is a ", n["type"])
		}
		if w := litValue(val); n["value"] != w {
			return fmt.Sprintf("value %q, expected %q", n["value"], w)
		}
		if n["raw"] != src {
			return fmt.Sprintf("raw %q", n["raw"])
		}
	case "tpl":
		if n["type"] != "TemplateLiteral" {
			return fmt.Sprint("is a ", n["type"])
		}
		qs, _ := n["quasis"].([]interface{})
		es, _ := n["expressions"].([]interface{})
		ps := strings.Split(strings.TrimSuffix(val, "|"), "|")
		if len(qs) != len(ps) || len(es) != len(ps)-1 {
			return fmt.Sprintf("%d quasis, %d expressions", len(qs), len(es))
		}
		for i, p := range ps {
			f := strings.Split(p, ";")
			q, _ := qs[i].(map[string]interface{})
			v, _ := q["value"].(map[string]interface{})
			raw := litSpell(f[0])
			nraw := strings.ReplaceAll(strings.ReplaceAll(raw, "\r\n", "\n"), "\r", "\n")
			// line breaks in the raw text: as written (the repository's tests) or normalised (the standard)
			if v["raw"] != raw && v["raw"] != nraw {
				return fmt.Sprintf("raw text %q, expected %q", v["raw"], raw)
			}
			if f[2] == "FALSE" && v["cooked"] != litValue(f[1]) {
				return fmt.Sprintf("cooked text %q, expected %q", v["cooked"], litValue(f[1]))
			}
			if q["tail"] != (i == len(ps)-1) {
				return "tail"
			}
		}
	case "re":
		if n["type"] != "Literal" {
			return fmt.Sprint("is a ", n["type"])
		}
		f := strings.Split(val, ";")
		r, _ := n["regexp"].(map[string]interface{})
		if r == nil {
			r, _ = n["regex"].(map[string]interface{})
		}
		if r["pattern"] != litSpell(f[0]) || r["flags"] != f[1] {
			return fmt.Sprintf("pattern %q flags %q, expected %q %q", r["pattern"], r["flags"], litSpell(f[0]), f[1])
		}
	}
	return ""
}

type litConf struct {
	kind, alpha string
	k, sim      int
}

func litRun(c *core.Ctx, cf litConf) {
	if c.Enough() {
		return
	}
	var n, oks int64
	var mu sync.Mutex
	seen := map[string]bool{}
	pool := core.NewPool()
	one := func(w int, a []string) {
		words, verdict, val := a[0], a[1], a[2]
		src := litSpell(words)
		ill := cf.kind == "tpl" && strings.Contains(val, ";TRUE|")
		atomic.AddInt64(&n, 1)
		if verdict != "bad" {
			atomic.AddInt64(&oks, 1)
		}
		for i, cx := range litCtxs {
			// all places for literals, a few for the others
			if verdict == "bad" && i > 2 {
				break
			}
			full := cx.pre + src + cx.post
			for _, mode := range []string{"script", "strict"} {
				want := verdict == "ok" || verdict == "free" || (verdict == "loose" && mode == "script")
				if verdict == "free" && mode == "strict" {
					continue
				}
				if ill {
					want = false
				}
				litOne(c, w, cf.kind, mode, full, src, val, want, cx.path, false)
				if cf.kind == "re" && want {
					litOne(c, w, cf.kind, "flags", full, src, val, strings.HasSuffix(val, ";TRUE"), cx.path, false)
				}
			}
			if cf.kind == "tpl" {
				litOne(c, w, cf.kind, "script", cx.pre+"t"+src+cx.post, src, val, verdict != "bad", append(append([]interface{}{}, cx.path...), "quasi"), true)
			}
			if cf.kind == "str" && i == 0 { // as names of properties and modules
				w1 := verdict == "ok" || verdict == "free" || verdict == "loose"
				litOne(c, w, cf.kind, "script", "({"+src+": a})", src, val, w1, []interface{}{"body", 0, "expression", "properties", 0, "key"}, false)
				if verdict != "free" {
					litOne(c, w, cf.kind, "module", "import a from "+src+";", src, val, verdict == "ok", []interface{}{"body", 0, "source"}, false)
				}
			}
		}
	}
	var ls []string
	for _, x := range strings.Fields(cf.alpha) {
		ls = append(ls, `"`+x+`"`)
	}
	live := "FALSE"
	var args []string
	wk := 0
	if cf.sim > 0 {
		live = "TRUE"
		wk = 1
		args = []string{"-simulate", fmt.Sprintf("num=%d", cf.sim), "-depth", fmt.Sprint(cf.k + 2), "-seed", fmt.Sprint(c.Seed)}
	}
	res, err := (&tlc.Run{SpecDir: specDir(), Module: "Lit", Workers: wk, Args: args,
		Consts:   map[string]string{"Kind": `"` + cf.kind + `"`, "Alphabet": "{" + strings.Join(ls, ",") + "}", "K": fmt.Sprint(cf.k), "Live": live},
		CfgExtra: "SPECIFICATION Spec\nINVARIANT TypeOk\nINVARIANT TplRaw\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
		OnPrint: func(tag string, a []string) {
			if tag != "V" {
				return
			}
			if cf.sim > 0 {
				mu.Lock()
				dup := seen[a[0]]
				seen[a[0]] = true
				mu.Unlock()
				if dup {
					return
				}
			}
			pool.Do(func(w int) { one(w, a) })
		}}).Exec()
	pool.Wait()
	if err != nil {
		core.Fatal("Lit: %v", err)
	}
	if oks == 0 {
		core.Fatal("Lit: no literal over %s", cf.alpha)
	}
	c.States += res.Distinct
	c.Transitions += res.Generated
	c.Traces += n
	c.Evaluations += n
	c.Distinct += oks
	c.Logf("%s over [%s], %d characters: %d texts, %d literals", cf.kind, cf.alpha, cf.k, n, oks)
	c.Extra[cf.kind+" "+cf.alpha] = fmt.Sprintf("characters<=%d texts=%d literals=%d", cf.k, n, oks)
}

func litOne(c *core.Ctx, w int, kind, mode, full, src, val string, want bool, path []interface{}, tagged bool) {
	if c.Enough() {
		return
	}
	core.Guard(w, mode+"\x00"+full, func() {
		opts := litOpts(mode)
		r := mole.Parse(full, opts)
		what := ""
		switch {
		case r.Panic != "":
			what = "panics: " + r.Panic
		case want && r.Err != nil:
			what = "it is a literal, the parser rejects it: " + r.Err.Error()
		case !want && r.Err == nil:
			what = "it is no literal, the parser accepts it"
		case want:
			v, pan := r.Estree(false)
			if pan != "" {
				what = "conversion panics: " + pan
			} else if n, ok := litDig(v, path); !ok {
				what = "the tree has no literal at its place"
			} else {
				what = litCompare(kind, val, src, n)
			}
		}
		if what != "" {
			c.Violation("literal "+mode+": "+full, map[string]interface{}{"mode": mode, "source": full, "what": what})
		}
	})
}

func litOpts(mode string) *parser.ParserOpts {
	if mode == "flags" {
		o := mole.Opts("script")
		o.Feature = o.Feature.On(parser.FEAT_CHK_REGEXP_FLAGS | parser.FEAT_REGEXP_UNICODE | parser.FEAT_REGEXP_STICKY | parser.FEAT_REGEXP_DOT_ALL | parser.FEAT_REGEXP_HAS_INDICES)
		return o
	}
	return mole.Opts(mode)
}

func litCheck(c *core.Ctx) {
	c.Exhaustive = true
	c.Rule = "every text over the alphabets up to the length bound, at every place for a literal; the specification decides whether it is a literal and gives its value"
	confs := []litConf{
		{"num", "0 1 7 8 . e n _ x b o + a", 4, 0}, {"num", "0 1 8 . e _ n -", 5, 0}, {"num", "0 2 x b o B O X f _ n", 5, 0},
		{"str", "SQ DQ BS a n 0 1 4 8 LF", 5, 0}, {"str", "SQ BS u x { } 0 1", 6, 0}, {"str", "SQ BS LF CR LS PS a E2 FD b", 5, 0},
		{"tpl", "BT BS a 0 1 8 x CR LF", 6, 0}, {"tpl", "BT BS u { } 1 HOLE $", 6, 0}, {"tpl", "BT BS LS HOLE E4 FD x n", 5, 0},
		{"re", "/ a ( ) [ ] BS u", 6, 0}, {"re", "/ BS u { } 1 g a", 7, 0}, {"re", "/ a LF LS E2 FD = n BS [", 5, 0}, {"re", "/ g i m s u y d x", 6, 0},
		{"num", "0 1 2 3 4 5 6 7 8 9 . e E _ n x X b B o O a b c d f A F + -", 14, 4000},
		{"str", "DQ SQ BS u x { } 0 1 3 4 7 8 9 a b c d e f A B D E F n r t v LF CR LS PS E2 E4 FD", 24, 3000},
		{"str", "SQ BS u D 8 3 E 0 x { }", 24, 3000},
		{"tpl", "BT BS u x { } 0 1 8 a b D n CR LF LS HOLE $ E4", 24, 3000},
	}
	if c.Thorough {
		for i := range confs {
			if confs[i].sim > 0 {
				confs[i].sim *= 10
			} else {
				confs[i].k++
			}
		}
	}
	for _, cf := range confs {
		litRun(c, cf)
	}
	// division or regular expression
	g := &checker{c}
	for _, f := range []frag{{"re", 5, 40}, {"re2", 4, 40}} {
		if c.Thorough {
			f.k++
		}
		g.exhaustive(f)
	}
}

func init() {
	checks["C07"] = litCheck
	reruns["C07"] = func(in string) {
		i := strings.IndexByte(in, 0)
		if i >= 0 {
			r := mole.Parse(in[i+1:], litOpts(in[:i]))
			if r.Ok() {
				r.Estree(true)
			}
		}
	}
}
