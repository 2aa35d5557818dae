package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/hsiaosiyuan0/mole/ecma/astutil"
	"github.com/hsiaosiyuan0/mole/ecma/exec"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"

	"verif/harness/internal/core"
	"verif/harness/internal/tlc"
)

func evVars() map[string]interface{} {
	arr := []interface{}{1.0, "1", nil}
	return map[string]interface{}{"one": 1.0, "dev": "d", "yes": true, "nul": nil, "arr": arr, "int": 1,
		"obj": map[string]interface{}{"p": "d", "q": arr, "1": 0.0}}
}

func evShow(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(x)
	case string:
		return "'" + x + "'"
	case int:
		return fmt.Sprintf("%d/1", x)
	case float64:
		switch {
		case math.IsNaN(x):
			return "NaN"
		case math.IsInf(x, 1):
			return "Inf"
		case math.IsInf(x, -1):
			return "-Inf"
		}
		s := ""
		if math.Signbit(x) {
			s, x = "-", -x
		}
		for q := 1.0; q <= 256; q *= 2 {
			if x*q == math.Trunc(x*q) {
				return fmt.Sprintf("%s%.0f/%.0f", s, x*q, q)
			}
		}
		return fmt.Sprint(s, x)
	case []interface{}:
		var r []string
		for _, e := range x {
			r = append(r, evShow(e))
		}
		return "[" + strings.Join(r, ";") + "]"
	case map[string]interface{}:
		var r []string
		for _, k := range []string{"p", "q", "1"} {
			r = append(r, evShow(x[k]))
		}
		return "{" + strings.Join(r, ";") + "}"
	}
	return fmt.Sprintf("%T %v", v, v)
}

func evParse(code string) (parser.Node, *parser.Parser, error) {
	p := parser.NewParser(span.NewSource("", code), parser.NewParserOpts())
	n, err := p.Prog()
	return n, p, err
}

// evOne: "" if the value is right or the evaluator gives up (second result false)
func evOne(text, want string) (bad string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("panic: %v", e)
		}
	}()
	src := "(" + text + ")"
	ast, p, err := evParse(src)
	if err != nil {
		return "the parser rejects the expression: " + err.Error(), false
	}
	run := func(n parser.Node) (string, bool) {
		ev := exec.NewExprEvaluator(n, p)
		for i := 0; i < 2; i++ { // an evaluator can be used again
			res, err := ev.Exec(evVars()).GetResult()
			if err != nil {
				return "", false
			}
			if got := evShow(res); got != want {
				return fmt.Sprintf("run %d: the value is %s, JavaScript gives %s", i+1, got, want), false
			}
		}
		ev.Release()
		return "", true
	}
	if bad, ok = run(ast); bad != "" {
		return
	}
	return run(ast.(*parser.Prog).Body()[0].(*parser.ExprStmt).Expr())
}

// the branches selected for a test
func evBranch(text, truth string, all bool) string {
	t, f := "y1", "n1"
	other, oh := f, t
	if truth == "F" {
		t, f = f, t
	}
	forms := []struct{ src, must, never string }{
		{"if (" + text + ") { y1 } else { n1 }", t, f},
		{"(" + text + ") ? y1 : n1", t, f},
	}
	_ = other
	_ = oh
	for _, fm := range forms {
		got, bad := evCollect(fm.src)
		if bad != "" {
			return fm.src + ": " + bad
		}
		if got[fm.must] != 1 || got[fm.never] != 0 {
			// when the test cannot be evaluated both are kept
			if got[fm.must] == 1 && got[fm.never] == 1 && !all {
				continue
			}
			return fmt.Sprintf("%s: keeps %v, JavaScript takes %s", fm.src, evKeys(got), fm.must)
		}
	}
	return ""
}

func evKeys(m map[string]int) []string {
	var r []string
	for k, n := range m {
		r = append(r, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(r)
	return r
}

var evMark = regexp.MustCompile(`^[mwyn]\d+$`)

func evCollect(src string) (got map[string]int, bad string) {
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("panic: %v", e)
		}
	}()
	ast, p, err := evParse(src)
	if err != nil {
		return nil, "the parser rejects it: " + err.Error()
	}
	vars := evVars()
	vars["tt"], vars["ff"] = true, false
	for i := 0; i < 40; i++ {
		vars[fmt.Sprint("m", i)] = 1.0
		vars[fmt.Sprint("w", i)] = 0.0
	}
	got = map[string]int{}
	for _, n := range astutil.CollectNodesInTrueBranches(ast, []parser.NodeType{parser.N_NAME}, vars, p) {
		if s := n.(*parser.Ident).Val(); evMark.MatchString(s) {
			got[s]++
		}
	}
	return got, ""
}

var evName = regexp.MustCompile(`[mw]\d+`)

func evSet(names string, quote bool) string {
	var r []string
	for _, x := range strings.Split(names, "|") {
		r = append(r, fmt.Sprintf("%q", x))
	}
	return "{" + strings.Join(r, ", ") + "}"
}

func evCheck(c *core.Ctx) {
	c.Exhaustive = true
	c.Rule = "every expression the specification builds within the bounds: a value the evaluator reports has to be the specified one; every program of tests and branches: exactly the branches that run are kept"
	type conf struct {
		atoms, ops string
		k, sim     int
	}
	allAtoms := "0|1|2|3|10|0.5|true|false|null|undefined|''|'1'|'a'|' 2 '|'p'|'0'|'01'|'true'|'1.5'|'-'|'inf'|'Infinity'|[]|one|dev|yes|nul|none|arr|obj|int"
	arith := "&&|'||'|==|!=|===|!==|+|-|*|/|!|neg|pos"
	arith = strings.ReplaceAll(arith, "'||'", "OROR")
	allOps := arith + "|??|<|>=|,|%|in|typeof|void|tpl|~|arr1|arr2|hole|objl|mem|len|opt|idx|inc|inc2|cond"
	confs := []conf{
		{allAtoms, allOps, 3, 0},
		{"0|2|'1'|true|null", "+|-|*|/|neg|==|===", 5, 0},
		{"0|1|''|'a'|none", "&&|OROR|!|===|+", 5, 0},
		{"1|'1'|null|arr", "arr1|arr2|idx|inc|mem|==", 4, 0},
		{"obj|arr|'p'|1|0.5", "idx|mem|len|opt|inc|+", 4, 0},
		{"0|1|'a'", "cond|,|typeof|tpl|void|<|>=|??|!", 4, 0},
		{allAtoms, allOps, 9, 30000},
		{allAtoms, arith + "|mem|idx|inc|arr2", 11, 30000},
	}
	if c.Thorough {
		confs = []conf{
			{allAtoms, allOps, 3, 0},
			{"0|1|2|'1'|true|null|undefined", "+|-|*|/|neg|==|===|!=|!==|pos", 5, 0},
			{"0|1|''|'a'|none|true", "&&|OROR|!|===|+|!=", 5, 0},
			{"1|'1'|null|arr|undefined", "arr1|arr2|idx|inc|mem|==|===", 5, 0},
			{"obj|arr|'p'|1|0.5", "idx|mem|len|opt|inc|+", 5, 0},
			{"0|1|'a'", "cond|,|typeof|tpl|void|<|>=|??|!", 5, 0},
			{allAtoms, allOps, 10, 300000},
			{allAtoms, arith + "|mem|idx|inc|arr2", 13, 300000},
		}
	}
	var decided, gaveUp int64
	pool := core.NewPool()
	for _, cf := range confs {
		var n int64
		var args []string
		if cf.sim > 0 {
			args = []string{"-simulate", fmt.Sprintf("num=%d", cf.sim), "-depth", fmt.Sprint(cf.k + 2), "-seed", fmt.Sprint(c.Seed)}
		}
		seen := map[string]bool{}
		res, err := (&tlc.Run{SpecDir: specDir(), Module: "Eval", Workers: 1, Args: args,
			Consts:   map[string]string{"Atoms": evSet(cf.atoms, true), "Ops": strings.ReplaceAll(evSet(cf.ops, true), "OROR", "||"), "K": fmt.Sprint(cf.k)},
			CfgExtra: "SPECIFICATION Spec\nINVARIANT Kinds\nINVARIANT EqOk\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
			OnPrint: func(tag string, a []string) {
				if c.Enough() || seen[a[0]] {
					return
				}
				seen[a[0]] = true
				n++
				pool.Do(func(w int) {
					core.Guard(w, a[0], func() {
						bad, ok := evOne(a[0], a[1])
						if bad != "" {
							c.Violation("value: "+a[0], map[string]interface{}{"expression": a[0], "what": bad, "variables": evShow(evVars()["obj"])})
							return
						}
						if ok {
							atomic.AddInt64(&decided, 1)
						} else {
							atomic.AddInt64(&gaveUp, 1)
						}
						if bad := evBranch(a[0], a[2], ok); bad != "" {
							c.Violation("branch: "+a[0], map[string]interface{}{"expression": a[0], "what": bad})
						}
					})
				})
			}}).Exec()
		pool.Wait()
		if err != nil {
			core.Fatal("Eval: %v", err)
		}
		c.States += res.Distinct
		c.Transitions += res.Generated
		c.Logf("%d atoms, %d operators, %d steps: %d expressions", strings.Count(cf.atoms, "|")+1, strings.Count(cf.ops, "|")+1, cf.k, n)
		if n == 0 {
			core.Fatal("Eval: no expressions")
		}
		c.Evaluations += n
	}
	c.Extra["expressions evaluated"] = decided
	c.Extra["expressions the evaluator gives up"] = gaveUp
	c.Traces += decided + gaveUp
	c.Distinct += decided
	type bconf struct {
		kinds  string
		k, sim int
	}
	bconfs := []bconf{
		{"m|t|if|else", 7, 0}, {"m|t|&&|OROR|?|if", 5, 0}, {"m|w|&&|OROR|!|+", 5, 0}, {"m|t|else|;|&&", 6, 0},
		{"m|w|t|&&|OROR|!|+|?|if|else|;", 20, 20000},
	}
	if c.Thorough {
		bconfs = []bconf{
			{"m|t|if|else", 9, 0}, {"m|t|&&|OROR|?|if", 6, 0}, {"m|w|&&|OROR|!|+", 6, 0}, {"m|t|else|;|&&", 7, 0},
			{"m|w|t|&&|OROR|!|+|?|if|else|;", 26, 200000},
		}
	}
	for _, cf := range bconfs {
		var n int64
		var args []string
		if cf.sim > 0 {
			args = []string{"-simulate", fmt.Sprintf("num=%d", cf.sim), "-depth", fmt.Sprint(cf.k + 2), "-seed", fmt.Sprint(c.Seed)}
		}
		res, err := (&tlc.Run{SpecDir: specDir(), Module: "Branch", Workers: 1, Args: args,
			Consts:   map[string]string{"Kinds": strings.ReplaceAll(evSet(cf.kinds, true), "OROR", "||"), "K": fmt.Sprint(cf.k)},
			CfgExtra: "SPECIFICATION Spec\nINVARIANT MustMay\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
			OnPrint: func(tag string, a []string) {
				if c.Enough() {
					return
				}
				n++
				must, may := map[string]bool{}, map[string]bool{}
				for _, x := range evName.FindAllString(a[1], -1) {
					must[x] = true
				}
				for _, x := range evName.FindAllString(a[2], -1) {
					may[x] = true
				}
				pool.Do(func(w int) {
					core.Guard(w, a[0], func() {
						got, bad := evCollect(a[0])
						for x := range must {
							if bad == "" && got[x] == 0 {
								bad = x + " runs and is not kept"
							}
						}
						for x, k := range got {
							if bad == "" && !may[x] {
								bad = x + " does not run and is kept"
							}
							if bad == "" && k > 1 {
								bad = x + " is kept several times"
							}
						}
						if bad != "" {
							c.Violation("branches: "+a[0], map[string]interface{}{"program": a[0], "what": bad, "kept": evKeys(got), "variables": "tt true, ff false, mI 1, wI 0, qq unknown"})
						}
					})
				})
			}}).Exec()
		pool.Wait()
		if err != nil {
			core.Fatal("Branch: %v", err)
		}
		c.States += res.Distinct
		c.Transitions += res.Generated
		c.Logf("branches %s, %d steps: %d programs", cf.kinds, cf.k, n)
		c.Traces += n
		c.Evaluations += n
		atomic.AddInt64(&c.Distinct, n)
	}
}

func init() {
	checks["C17"] = evCheck
	reruns["C17"] = func(in string) { evOne(in, ""); evCollect(in) }
}
