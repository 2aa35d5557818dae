package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	"verif/harness/internal/core"
	"verif/harness/internal/mole"
	"verif/harness/internal/tlc"
	"verif/harness/internal/tree"
)

// Recognition: the specification decides for each given word whether it is a program, and which.
// The words are the letters of the fragment "words*" and a derivation has one letter (Machine.tla).
func recognise(mode string, words [][]string) (derived map[string]*tree.Prog, states int64) {
	name := map[string]string{"script": "words", "strict": "wordsS", "module": "wordsM", "jsx": "wordsX", "ts": "wordsT"}[mode]
	derived = map[string]*tree.Prog{}
	const runs = 8
	var mu sync.Mutex
	var wg sync.WaitGroup
	amb := ""
	for i := 0; i < runs; i++ {
		var part [][]string
		kt := 1
		for j := i; j < len(words); j += runs {
			part = append(part, words[j])
			if len(words[j]) > kt {
				kt = len(words[j])
			}
		}
		if len(part) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var b strings.Builder
			b.WriteString("---- MODULE Words ----\nEXTENDS Sequences\nWordSet == {")
			for i, w := range part {
				if i > 0 {
					b.WriteString(",\n")
				}
				b.WriteString("<<")
				for j, t := range w {
					if j > 0 {
						b.WriteString(", ")
					}
					b.WriteString(`"` + t + `"`)
				}
				b.WriteString(">>")
			}
			b.WriteString("}\n====\n")
			r := &tlc.Run{SpecDir: specDir(), Module: "Machine", Workers: 1, Xmx: "3g", Files: map[string]string{"Words.tla": b.String()},
				Consts:   map[string]string{"FRAG": `"` + name + `"`, "K": "1", "KT": fmt.Sprint(kt), "SIM": "FALSE"},
				CfgExtra: "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
				OnPrint: func(tag string, a []string) {
					if tag != "V" {
						return
					}
					out, ok := tlc.ParseTuple(a[0])
					if !ok {
						core.Fatal("bad vector %s", a[0])
					}
					p, err := tree.Build(out)
					if err != nil {
						core.Fatal("%v in %v", err, out)
					}
					k := p.Key()
					mu.Lock()
					if _, ok := derived[k]; ok {
						amb = k
					}
					derived[k] = p
					mu.Unlock()
				}}
			res, err := r.Exec()
			if err != nil {
				core.Fatal("recognition: %v", err)
			}
			atomic.AddInt64(&states, res.Distinct)
		}()
	}
	wg.Wait()
	if amb != "" {
		core.Fatal("specification is ambiguous: %q", amb)
	}
	return derived, states
}

func progToks(p *tree.Prog) []string {
	var w []string
	for i, t := range p.Toks {
		if t.NL && i > 0 {
			w = append(w, "NL")
		}
		w = append(w, t.S)
	}
	return w
}

// normal form of a word: no line break at the ends or twice in a row
func normWord(w []string) []string {
	var o []string
	for _, t := range w {
		if t == "NL" && (len(o) == 0 || o[len(o)-1] == "NL") {
			continue
		}
		o = append(o, t)
	}
	for len(o) > 0 && o[len(o)-1] == "NL" {
		o = o[:len(o)-1]
	}
	return o
}

var nameToks = []string{"a", "b", "f", "async", "get", "of", "let", "static", "eval", "arguments", "yield", "await", "constructor"}

// similar tokens are exchanged more often than others
var tokClasses = [][]string{nameToks,
	{"(", "[", "{"}, {")", "]", "}"}, {";", ",", "NL"}, {".", "?.", "..."}, {"=", "+=", "=>", "??="}, {"||", "&&", "??", "|"},
	{"*", "**", "/", "+", "-"}, {"in", "of", "instanceof"}, {"var", "let", "const"}, {"if", "while", "for"}, {"break", "continue", "return"},
	{"function", "class"}, {"++", "--", "!", "typeof", "delete", "void"}, {"get", "set", "static", "async", "*"}, {"1", "'s'", "a", "this", "#b"},
	{"super", "this", "new", "import"}, {"case", "default"}, {"catch", "finally", "else"}, {"await", "yield", "async"}}

func mutate(r *rand.Rand, w []string, alphabet []string, other []string) []string {
	o := append([]string{}, w...)
	for n := 1 + r.Intn(2); n > 0; n-- {
		if len(o) == 0 {
			return o
		}
		i := r.Intn(len(o))
		switch r.Intn(12) {
		case 0, 1: // delete
			o = append(o[:i:i], o[i+1:]...)
		case 2: // double
			o = append(o[:i+1:i+1], o[i:]...)
		case 3: // swap
			if i+1 < len(o) {
				o[i], o[i+1] = o[i+1], o[i]
			}
		case 4: // any token
			o[i] = alphabet[r.Intn(len(alphabet))]
		case 5: // insert
			o = append(o[:i:i], append([]string{alphabet[r.Intn(len(alphabet))]}, o[i:]...)...)
		case 6: // line break
			o = append(o[:i:i], append([]string{"NL"}, o[i:]...)...)
		case 7: // a name of the program elsewhere
			j := r.Intn(len(o))
			o[i] = o[j]
		case 8: // piece of another program
			if len(other) > 0 {
				a := r.Intn(len(other))
				b := a + 1 + r.Intn(4)
				if b > len(other) {
					b = len(other)
				}
				o = append(o[:i:i], append(append([]string{}, other[a:b]...), o[i:]...)...)
			}
		default: // similar token
			var cs [][]string
			for _, c := range tokClasses {
				for _, t := range c {
					if t == o[i] {
						cs = append(cs, c)
					}
				}
			}
			if len(cs) == 0 {
				n++
				if r.Intn(8) == 0 {
					n--
				}
				continue
			}
			c := cs[r.Intn(len(cs))]
			o[i] = c[r.Intn(len(c))]
		}
	}
	return normWord(o)
}

func balanced(w []string) bool {
	var st []string
	for _, t := range w {
		switch t {
		case "(", "[", "{":
			st = append(st, t)
		case ")", "]", "}":
			if len(st) == 0 {
				return false
			}
			st = st[:len(st)-1]
		}
	}
	return len(st) == 0
}

// mutants: random derivations are changed at random; the specification decides what each result is.
func (c *checker) mutants(f frag, num, per int) {
	if c.Enough() {
		return
	}
	progs, mode, gen := simPrograms(f, num, c.Seed)
	al := map[string]bool{}
	var alphabet []string
	var words [][]string
	for _, p := range progs {
		w := progToks(p)
		words = append(words, w)
		for _, t := range w {
			if !al[t] {
				al[t] = true
				alphabet = append(alphabet, t)
			}
		}
	}
	seen := map[string]bool{}
	var ms [][]string
	rnd := rand.New(rand.NewSource(c.Seed*7919 + hash(f.name)))
	tplTok := func(w []string) bool { // template delimiters do not tokenise independently of their context
		for _, t := range w {
			if t == "`" || t == "${" || t == "/r/" || t == "TXT" {
				return true
			}
		}
		return false
	}
	for i, w := range words {
		if len(w) == 0 || tplTok(w) {
			continue
		}
		for k := 0; k < per; k++ {
			other := words[rnd.Intn(len(words))]
			if tplTok(other) {
				other = nil
			}
			m := mutate(rnd, w, alphabet, other)
			if len(m) == 0 || tplTok(m) || len(m) > f.kt+4 {
				continue
			}
			// most unbalanced words are uninteresting
			if !balanced(m) && rnd.Intn(6) != 0 {
				continue
			}
			key := strings.Join(m, " ")
			if !seen[key] {
				seen[key] = true
				ms = append(ms, m)
			}
		}
		_ = i
	}
	derived, states := recognise(mode, ms)
	var acc, rej int64
	core.Parallel(len(ms), func(w, i int) {
		if c.Enough() {
			return
		}
		key := strings.Join(ms[i], " ")
		p := derived[key]
		var lay *tree.Layout
		src := render(ms[i])
		if p != nil {
			lay = p.Plain()
			src = lay.Src
		}
		core.Guard(w, mode+"\x00"+src, func() {
			r := mole.Parse(src, mole.Opts(mode))
			det := func(what string) map[string]interface{} {
				return map[string]interface{}{"fragment": f.name, "mode": mode, "source": src, "what": what}
			}
			id := "mutant " + mode + ": " + key
			switch {
			case r.Panic != "":
				c.Violation(id, det("panics: "+r.Panic))
			case p != nil && r.Err != nil:
				c.Violation(id, det("the specification derives it, the parser rejects it: "+r.Err.Error()))
			case p == nil && r.Err == nil:
				c.Violation(id, det("the specification does not derive it, the parser accepts it"))
			case p != nil:
				atomic.AddInt64(&acc, 1)
				if d := c.cmp(p, lay, &r, false); d != "" {
					c.Violation(id, det("tree differs: "+d))
				}
			default:
				atomic.AddInt64(&rej, 1)
			}
		})
	})
	atomic.AddInt64(&c.States, gen+states)
	atomic.AddInt64(&c.Transitions, gen+states)
	atomic.AddInt64(&c.Traces, acc+rej)
	atomic.AddInt64(&c.Evaluations, int64(len(ms)))
	atomic.AddInt64(&c.Distinct, int64(len(ms)))
	c.Extra["mutants "+f.name] = fmt.Sprintf("words=%d in language=%d", len(ms), len(derived))
	if len(ms) > 0 {
		c.Sample(f.name + " (mutant): " + strings.Join(ms[len(ms)/2], " "))
	}
	c.Logf("%s mutants: %d words of %d programs decided by the specification (%d states): %d programs, %d not", f.name, len(ms), len(progs), states, len(derived), len(ms)-len(derived))
}

func init() {
	devCmds["mut"] = func(a []string) {
		c := &checker{core.NewCtx("DEV")}
		var kt, num, per int
		fmt.Sscan(a[1], &kt)
		fmt.Sscan(a[2], &num)
		fmt.Sscan(a[3], &per)
		c.mutants(frag{a[0], kt, kt}, num, per)
	}
	devCmds["rec"] = func(a []string) { // rec MODE "a + b" ...
		var ws [][]string
		for _, s := range a[1:] {
			ws = append(ws, strings.Fields(s))
		}
		d, st := recognise(a[0], ws)
		for _, s := range a[1:] {
			p := d[s]
			fmt.Printf("%v  %s\n", p != nil, s)
		}
		fmt.Println(st, "states")
	}
}
