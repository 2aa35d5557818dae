package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/hsiaosiyuan0/mole/util"

	"verif/harness/internal/core"
	"verif/harness/internal/tlc"
)

var jcText = map[byte]string{'q': `"`, 'b': `\`, 'n': "\n", 'r': "\r", 's': " ", 't': "\t", 'e': "é", 'f': "\ufffd", 'o': "😀", '~': " ", 'k': ",", 'u': "\u2028"}

func jcOf(x byte) string {
	if t, ok := jcText[x]; ok {
		return t
	}
	return string([]byte{x})
}

func jcWhite(x byte) bool { return x == ' ' || x == '\n' || x == '\r' || x == '\t' }

// jcMatch: does the result have the form `want`
func jcMatch(want, got string) bool {
	i, p := 0, 0
	white := func(x byte) bool { return x == 'n' || x == 'r' || x == 's' || x == 't' || x == '~' || x == 'W' || x == '?' }
	for i < len(want) {
		// a run of white space with a comment in it: any white space
		j, w := i, false
		for j < len(want) && white(want[j]) {
			if want[j] == 'W' {
				w = true
			}
			j++
		}
		if w {
			n := 0
			commas := strings.Count(want[i:j], "?")
			for p < len(got) && (jcWhite(got[p]) || (got[p] == ',' && commas > 0)) {
				if got[p] == ',' {
					commas--
				}
				p++
				n++
			}
			if n == 0 {
				return false
			}
			i = j
			continue
		}
		if want[i] == '?' {
			if p >= len(got) || (got[p] != ',' && got[p] != ' ') {
				return false
			}
			p++
			i++
			continue
		}
		t := jcOf(want[i])
		if !strings.HasPrefix(got[p:], t) {
			return false
		}
		p += len(t)
		i++
	}
	return p == len(got)
}

func jcSpell(w string) string {
	var sb strings.Builder
	for i := 0; i < len(w); i++ {
		sb.WriteString(jcOf(w[i]))
	}
	return sb.String()
}

func jcCheck(c *core.Ctx) {
	c.Exhaustive = true
	c.Rule = "every text over the alphabets up to the length bound, then random long texts; what is left has to have the form the specification gives"
	type conf struct {
		letters string
		k, sim  int
	}
	confs := []conf{{"qb/*nra,}]se", 5, 0}, {"qb/*,}s", 6, 0}, {"qb/*nra,}]stefo{:0", 40, 5000}, {"qb/*n,}", 30, 5000}}
	if c.Thorough {
		confs = []conf{{"qb/*nra,}]sef", 5, 0}, {"qb/*n,}s", 7, 0}, {"qb/", 12, 0}, {"qb/*nra,}]stefo{:0", 80, 80000}, {"qb/*n,}", 40, 80000}}
	}
	for _, cf := range confs {
		var ls []string
		for _, x := range cf.letters {
			ls = append(ls, fmt.Sprintf("%q", x))
		}
		for i := range ls {
			ls[i] = `"` + strings.Trim(ls[i], "'") + `"`
		}
		var mu sync.Mutex
		var n, rich int64
		one := func(tag string, a []string) {
			f := strings.Split(a[0], " ")
			word, want := f[0], f[1]
			src := jcSpell(word)
			var got []byte
			var err error
			bad := ""
			func() {
				defer func() {
					if e := recover(); e != nil {
						bad = fmt.Sprintf("panic: %v", e)
					}
				}()
				core.Guard(0, src, func() { got, err = util.RemoveJsonComments(src) })
			}()
			if bad == "" && err != nil {
				bad = "error: " + err.Error()
			}
			if bad == "" && !jcMatch(want, string(got)) {
				bad = "the result differs"
			}
			mu.Lock()
			n++
			if strings.Contains(want, "W") {
				rich++
			}
			mu.Unlock()
			if bad != "" {
				c.Violation("text: "+src, map[string]interface{}{"source": src, "what": bad, "result": string(got), "expected_form": jcSpell(want),
					"legend": "W: white space; ~ or ?: comma before a closing bracket"})
			}
		}
		inv := "INVARIANT Emit\n"
		var args []string
		if cf.sim > 0 {
			inv = "INVARIANT EmitEnd\n"
			args = []string{"-simulate", fmt.Sprintf("num=%d", cf.sim), "-depth", fmt.Sprint(cf.k + 2), "-seed", fmt.Sprint(c.Seed)}
		}
		res, err := (&tlc.Run{SpecDir: specDir(), Module: "Jsonc", Workers: 1, Args: args,
			Consts:   map[string]string{"Letters": "{" + strings.Join(ls, ",") + "}", "K": fmt.Sprint(cf.k)},
			CfgExtra: "SPECIFICATION Spec\nINVARIANT InOrder\nINVARIANT NoComments\n" + inv + "CHECK_DEADLOCK FALSE\n", OnPrint: one}).Exec()
		if err != nil {
			core.Fatal("Jsonc: %v", err)
		}
		c.States += res.Distinct
		c.Transitions += res.Generated
		if rich == 0 {
			core.Fatal("Jsonc: no comments in %d texts", n)
		}
		c.Logf("alphabet %s length %d: %d texts, %d with comments", cf.letters, cf.k, n, rich)
		c.Traces += n
		c.Evaluations += n
		c.Distinct += rich
		if c.Violations() > 20 {
			return
		}
	}
}

func init() {
	checks["C21"] = jcCheck
	reruns["C21"] = func(in string) { util.RemoveJsonComments(in) }
}
