package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"verif/harness/internal/core"
	"verif/harness/internal/mole"
	"verif/harness/internal/tlc"
	"verif/harness/internal/tree"
)

func specDir() string { return filepath.Join(core.Root, "spec") }

// A frag is one alphabet of Frags.tla with bounds.
type frag struct {
	name string
	k    int // letters, exhaustive
	kt   int // tokens
}

// slot inputs are "mode\x00source"
func rerunParse(in string) {
	i := strings.IndexByte(in, 0)
	if i < 0 {
		return
	}
	r := mole.Parse(in[i+1:], mole.Opts(in[:i]))
	if r.Ok() {
		r.Estree(true)
	}
}

type lang struct {
	mode    string
	letters [][]string
	progs   map[string]*tree.Prog // key -> derivation
}

// derive runs TLC over the fragment and returns its language.
func derive(c *core.Ctx, f frag) *lang {
	l := &lang{progs: map[string]*tree.Prog{}}
	dup := ""
	r := &tlc.Run{SpecDir: specDir(), Module: "Machine",
		Consts:   map[string]string{"FRAG": `"` + f.name + `"`, "K": fmt.Sprint(f.k), "KT": fmt.Sprint(f.kt), "SIM": "FALSE"},
		CfgExtra: "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
		OnPrint: func(tag string, a []string) {
			switch tag {
			case "FRAG":
				ls, err := tlc.ParseSetOfTuples(a[0])
				if err != nil {
					core.Fatal("%v", err)
				}
				l.letters = ls
				l.mode = a[1]
			case "V":
				out, ok := tlc.ParseTuple(a[0])
				if !ok {
					core.Fatal("bad vector %s", a[0])
				}
				p, err := tree.Build(out)
				if err != nil {
					core.Fatal("%v in %v", err, out)
				}
				k := p.Key()
				if _, ok := l.progs[k]; ok {
					dup = k
				}
				l.progs[k] = p
			}
		}}
	res, err := r.Exec()
	if err != nil {
		core.Fatal("%s: %v", f.name, err)
	}
	if dup != "" {
		core.Fatal("specification is ambiguous in %s: %q", f.name, dup)
	}
	if l.letters == nil {
		core.Fatal("%s: no alphabet", f.name)
	}
	atomic.AddInt64(&c.States, res.Distinct)
	atomic.AddInt64(&c.Transitions, res.Generated)
	return l
}

func (c *checker) cmp(p *tree.Prog, lay *tree.Layout, res *mole.Res, linecol bool) string {
	v, pan := res.Estree(linecol)
	if pan != "" {
		return "conversion panics: " + pan
	}
	cm := &tree.Cmp{L: lay, LineCol: linecol, Positions: true}
	return cm.Compare(p.Root, v)
}

type checker struct {
	*core.Ctx
}

// exhaustive: every word of at most k letters is accepted by the implementation iff it is in the language,
// and then has the specified tree.
func (c *checker) exhaustive(f frag) {
	if c.Enough() {
		return
	}
	l := derive(c.Ctx, f)
	opts := func() string { return l.mode }
	_ = opts
	// words
	nl := len(l.letters)
	var total, accepted, rejected int64
	// split on the first two letters
	type job struct{ pre []int }
	var jobs []job
	for i := 0; i < nl; i++ {
		jobs = append(jobs, job{[]int{i}})
		if f.k > 1 {
			for j := 0; j < nl; j++ {
				jobs = append(jobs, job{[]int{i, j}})
			}
		}
	}
	var seenMu sync.Mutex
	seen := 0
	core.Parallel(len(jobs), func(w, ji int) {
		j := jobs[ji]
		idx := make([]int, 0, f.k)
		idx = append(idx, j.pre...)
		toks := []string{}
		var b strings.Builder
		localSeen := 0
		var try func()
		try = func() {
			toks = toks[:0]
			for _, i := range idx {
				toks = append(toks, l.letters[i]...)
			}
			if toks[0] == "NL" || toks[len(toks)-1] == "NL" || len(toks) > f.kt {
				return
			}
			b.Reset()
			for i, t := range toks {
				if t == "NL" && i > 0 && toks[i-1] == "NL" {
					return
				}
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(t)
			}
			key := b.String()
			p := l.progs[key]
			var lay *tree.Layout
			src := ""
			if p != nil {
				lay = p.Plain()
				src = lay.Src
				localSeen++
			} else {
				src = render(toks)
			}
			atomic.AddInt64(&total, 1)
			core.Guard(w, l.mode+"\x00"+src, func() {
				r := mole.Parse(src, mole.Opts(l.mode))
				det := func(what string) map[string]interface{} {
					return map[string]interface{}{"fragment": f.name, "mode": l.mode, "source": src, "what": what}
				}
				switch {
				case r.Panic != "":
					c.Violation(f.name+": "+key, det("panics: "+r.Panic))
				case p != nil && r.Err != nil:
					c.Violation(f.name+": "+key, det("the specification derives it, the parser rejects it: "+r.Err.Error()))
				case p == nil && r.Err == nil:
					c.Violation(f.name+": "+key, det("the specification does not derive it, the parser accepts it"))
				case p != nil:
					atomic.AddInt64(&accepted, 1)
					if d := c.cmp(p, lay, &r, false); d != "" {
						c.Violation(f.name+": "+key, det("tree differs: "+d))
					}
				default:
					atomic.AddInt64(&rejected, 1)
				}
			})
		}
		var rec func()
		rec = func() {
			if c.Enough() {
				return
			}
			try()
			if len(j.pre) == 1 || len(idx) >= f.k {
				return
			}
			for i := 0; i < nl; i++ {
				idx = append(idx, i)
				rec()
				idx = idx[:len(idx)-1]
			}
		}
		rec()
		seenMu.Lock()
		seen += localSeen
		seenMu.Unlock()
	})
	want := len(l.progs)
	if _, ok := l.progs[""]; ok {
		want--
	}
	if !c.Enough() && seen != want {
		core.Fatal("%s: enumeration visited %d of %d derived programs", f.name, seen, want)
	}
	atomic.AddInt64(&c.Traces, int64(seen))
	atomic.AddInt64(&c.Evaluations, total)
	atomic.AddInt64(&c.Distinct, int64(seen))
	c.Extra["fragment "+f.name] = fmt.Sprintf("letters<=%d tokens<=%d words=%d in language=%d", f.k, f.kt, total, seen)
	i := 0
	for k := range l.progs {
		if len(strings.Fields(k)) >= f.k-1 {
			if i++; i > 2 {
				break
			}
			c.Sample(f.name + ": " + k)
		}
	}
	c.Logf("%s k=%d: %d words, %d derived, all compared", f.name, f.k, total, seen)
}

func render(toks []string) string {
	var b strings.Builder
	for i, t := range toks {
		if t == "NL" {
			b.WriteString(" \n")
			continue
		}
		if i > 0 {
			b.WriteByte(' ')
		}
		if x, ok := tree.Text[t]; ok {
			t = x
		}
		b.WriteString(t)
	}
	return b.String()
}

func hash(s string) int64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return int64(h.Sum64() >> 1)
}

// simPrograms: distinct random derivations.  Eight single-worker runs, so that the result depends on the seed only.
func simPrograms(f frag, num int, seed int64) (progs []*tree.Prog, mode string, gen int64) {
	const runs = 8
	type out struct {
		progs []*tree.Prog
		keys  []string
		mode  string
	}
	outs := make([]out, runs)
	var wg sync.WaitGroup
	for i := 0; i < runs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := &outs[i]
			r := &tlc.Run{SpecDir: specDir(), Module: "Machine", Workers: 1, Xmx: "1g",
				Consts:   map[string]string{"FRAG": `"` + f.name + `"`, "K": fmt.Sprint(f.k), "KT": fmt.Sprint(f.kt), "SIM": "TRUE"},
				CfgExtra: "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
				Args:     []string{"-simulate", fmt.Sprintf("num=%d", (num+runs-1)/runs), "-depth", "2000", "-seed", fmt.Sprint(seed*runs + int64(i) + int64(f.kt)*1000)},
				OnPrint: func(tag string, a []string) {
					switch tag {
					case "FRAG":
						o.mode = a[1]
					case "V":
						out, ok := tlc.ParseTuple(a[0])
						if !ok {
							core.Fatal("bad vector %s", a[0])
						}
						p, err := tree.Build(out)
						if err != nil {
							core.Fatal("%v in %v", err, out)
						}
						o.progs = append(o.progs, p)
						o.keys = append(o.keys, p.Key())
					}
				}}
			res, err := r.Exec()
			if err != nil {
				core.Fatal("%s: %v", f.name, err)
			}
			atomic.AddInt64(&gen, res.Generated)
		}(i)
	}
	wg.Wait()
	seen := map[string]bool{}
	for i := range outs {
		mode = outs[i].mode
		for j, p := range outs[i].progs {
			if k := outs[i].keys[j]; !seen[k] {
				seen[k] = true
				progs = append(progs, p)
			}
		}
	}
	return progs, mode, gen
}

// simulate: TLC random derivations of longer programs over the whole fragment, laid out in several ways.
func (c *checker) simulate(f frag, num, layouts int) {
	if c.Enough() {
		return
	}
	progs, mode, gen := simPrograms(f, num, c.Seed)
	if len(progs) == 0 {
		core.Fatal("%s: simulation produced no program", f.name)
	}
	var evals int64
	core.Parallel(len(progs), func(w, i int) {
		if c.Enough() {
			return
		}
		p := progs[i]
		key := p.Key()
		rnd := rand.New(rand.NewSource(c.Seed ^ hash(key)))
		for k := 0; k < layouts; k++ {
			lay := p.Plain()
			if k > 0 {
				lay = p.Random(rnd)
			}
			core.Guard(w, mode+"\x00"+lay.Src, func() {
				atomic.AddInt64(&evals, 1)
				r := mole.Parse(lay.Src, mole.Opts(mode))
				det := func(what string) map[string]interface{} {
					return map[string]interface{}{"fragment": f.name, "mode": mode, "source": lay.Src, "what": what}
				}
				switch {
				case r.Panic != "":
					c.Violation(f.name+": "+key, det("panics: "+r.Panic))
				case r.Err != nil:
					c.Violation(f.name+": "+key, det("the specification derives it, the parser rejects it: "+r.Err.Error()))
				default:
					if d := c.cmp(p, lay, &r, k > 0); d != "" {
						c.Violation(f.name+": "+key, det("tree differs: "+d))
					}
				}
			})
		}
	})
	atomic.AddInt64(&c.States, gen)
	atomic.AddInt64(&c.Transitions, gen)
	atomic.AddInt64(&c.Traces, int64(len(progs)))
	atomic.AddInt64(&c.Evaluations, evals)
	atomic.AddInt64(&c.Distinct, int64(len(progs)))
	tl := 0
	for _, p := range progs {
		tl += len(p.Toks)
	}
	{
		c.Sample(f.name + " (simulated): " + progs[len(progs)/2].Key())
		c.Logf("%s simulated: %d distinct programs, mean %d tokens, %d layouts", f.name, len(progs), tl/len(progs), layouts)
		c.Extra["simulated "+f.name] = fmt.Sprintf("tokens<=%d programs=%d mean tokens=%d layouts each=%d", f.kt, len(progs), tl/len(progs), layouts)
	}
}

func init() {
	// development: verif frag NAME K KT   /   verif sim NAME KT NUM    (prints mismatches, with -lang dumps the language)
	devCmds["frag"] = func(a []string) {
		c := &checker{core.NewCtx("DEV")}
		var k, kt int
		fmt.Sscan(a[1], &k)
		fmt.Sscan(a[2], &kt)
		if len(a) > 3 && a[3] == "lang" {
			l := derive(c.Ctx, frag{a[0], k, kt})
			for key, p := range l.progs {
				fmt.Println(js(map[string]interface{}{"key": key, "src": p.Plain().Src}))
			}
			return
		}
		c.exhaustive(frag{a[0], k, kt})
		os.Exit(0)
	}
	devCmds["sim"] = func(a []string) {
		c := &checker{core.NewCtx("DEV")}
		var kt, num int
		fmt.Sscan(a[1], &kt)
		fmt.Sscan(a[2], &num)
		if len(a) > 3 {
			ps, _, _ := simPrograms(frag{a[0], kt, kt}, num, c.Seed)
			for _, p := range ps {
				fmt.Println(p.Key())
			}
			return
		}
		c.simulate(frag{a[0], kt, kt}, num, 3)
	}
}
