package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hsiaosiyuan0/mole/util"

	"verif/harness/internal/core"
	"verif/harness/internal/tlc"
)

// a directory tree on disk; nodes are numbered from 1, in the order of creation
type dwNode struct {
	dir, link bool
	par, prev int
	path      string
}
type dwTree struct {
	name  string
	root  string
	nodes []dwNode // nodes[0] is the root
}

var dwDirNames = []string{"d", "e e", ".git", "..x", "é", "n.js", "-", "z[1]*"}
var dwFileNames = []string{"a.js", "b", ".h", "c d.ts", "ü", "..", "A.JS", "~", "0"}

func (t *dwTree) add(par int, dir, link bool, name string) int {
	p := t.root
	if par > 0 {
		p = filepath.Join(t.nodes[par-1].path, name)
	}
	t.nodes = append(t.nodes, dwNode{dir: dir, link: link, par: par, path: p})
	return len(t.nodes)
}

func dwUniq(used map[string]bool, rnd *rand.Rand, pool []string) string {
	for i := 0; ; i++ {
		n := pool[rnd.Intn(len(pool))]
		if i > 3 {
			n += fmt.Sprint(rnd.Intn(1000))
		}
		if n != ".." && !used[n] {
			used[n] = true
			return n
		}
	}
}

// shape: parents of the directories (parents[0] = 0 is the root's), files per directory
func dwBuild(base, name string, parents []int, files []int, rnd *rand.Rand, links bool) *dwTree {
	t := &dwTree{name: name, root: filepath.Join(base, name)}
	used := map[int]map[string]bool{}
	ids := []int{}
	for i, p := range parents {
		if i == 0 {
			ids = append(ids, t.add(0, true, false, ""))
		} else {
			pi := ids[p]
			if used[pi] == nil {
				used[pi] = map[string]bool{}
			}
			ids = append(ids, t.add(pi, true, false, dwUniq(used[pi], rnd, dwDirNames)))
		}
		if err := os.MkdirAll(t.nodes[ids[i]-1].path, 0o755); err != nil {
			core.Fatal("%v", err)
		}
	}
	for i := range parents {
		pi := ids[i]
		if used[pi] == nil {
			used[pi] = map[string]bool{}
		}
		names := []string{}
		for j := 0; j < files[i]; j++ {
			names = append(names, dwUniq(used[pi], rnd, dwFileNames))
		}
		sort.Strings(names)
		prev := 0
		for _, n := range names {
			link := links && rnd.Intn(3) == 0
			f := t.add(pi, false, link, n)
			t.nodes[f-1].prev = prev
			prev = f
			pth := t.nodes[f-1].path
			var err error
			if link {
				err = os.Symlink([]string{".", "..", "nowhere", t.root}[rnd.Intn(4)], pth)
			} else {
				err = os.WriteFile(pth, []byte("x"), 0o644)
			}
			if err != nil {
				core.Fatal("%v", err)
			}
		}
	}
	return t
}

type dwTrace struct {
	what    string
	tree    *dwTree
	workers int
	errs    bool
	mu      sync.Mutex
	ev      []string
	stopErr []error
	fail    string
	ret     chan struct{}
}

func (d *dwTrace) add(e string, n int) {
	d.mu.Lock()
	d.ev = append(d.ev, fmt.Sprintf("<<\"%s\",%d>>", e, n))
	d.mu.Unlock()
}

func (d *dwTrace) tla() string {
	d.mu.Lock()
	defer d.mu.Unlock()
	b := func(x bool) string {
		if x {
			return "TRUE"
		}
		return "FALSE"
	}
	var ns []string
	for _, n := range d.tree.nodes {
		ns = append(ns, fmt.Sprintf("<<%s,%d,%d>>", b(n.dir), n.par, n.prev))
	}
	return fmt.Sprintf("Tr(<<%s>>,%d,%s,<<%s>>)", strings.Join(ns, ","), d.workers, b(d.errs), strings.Join(d.ev, ","))
}

// how a walk is disturbed
type dwPlan struct {
	stopAt  int // number of started handlers after which the handler asks for a stop (0: never)
	stops   int // how many handlers in a row ask
	twice   bool
	outside bool   // a stop from another goroutine
	remove  int    // node removed by the handler of the root (0: none)
	missing bool   // the root does not exist
	yield   int    // 0 none, 1 Gosched, 2 sleep
	spell   string // suffix of the spelling of the root
}

func dwRun(t *dwTree, workers int, pl dwPlan, seed int64) *dwTrace {
	d := &dwTrace{tree: t, workers: workers, ret: make(chan struct{})}
	if workers == 0 {
		d.workers = 16
	}
	d.what = fmt.Sprintf("tree %s (%d nodes), %d workers, %+v, seed %d", t.name, len(t.nodes), workers, pl, seed)
	ids := map[string]int{}
	for i, n := range t.nodes {
		ids[n.path] = i + 1
	}
	rnd := rand.New(rand.NewSource(seed))
	var rmu sync.Mutex
	pick := func(n int) int { rmu.Lock(); defer rmu.Unlock(); return rnd.Intn(n) }
	var started int64
	root := t.root
	if pl.missing {
		root = filepath.Join(t.root, "missing")
		d.errs = true
	}
	if pl.remove > 0 {
		d.errs = true
	}
	mine := map[error]bool{}
	ask := func(w *util.DirWalker, k int) {
		e := errors.New(fmt.Sprint("stop", k))
		d.mu.Lock()
		mine[e] = true
		d.mu.Unlock()
		d.add("X", 0)
		w.Stop(e)
	}
	yield := func() {
		switch {
		case pl.yield == 1 && pick(2) == 0:
			runtime.Gosched()
		case pl.yield == 2:
			time.Sleep(time.Duration(pick(300)) * time.Microsecond)
		}
	}
	w := util.NewDirWalker(root+pl.spell, workers, func(f string, dir bool, w *util.DirWalker) {
		id := ids[filepath.Clean(f)]
		d.add("S", id)
		k := int(atomic.AddInt64(&started, 1))
		if id > 0 && t.nodes[id-1].dir != dir {
			d.mu.Lock()
			d.fail = fmt.Sprintf("the handler of %q is told that directory is %v", f, dir)
			d.mu.Unlock()
		}
		if id == 1 && pl.remove > 0 {
			if err := os.RemoveAll(t.nodes[pl.remove-1].path); err != nil {
				core.Fatal("%v", err)
			}
		}
		yield()
		if pl.stopAt > 0 && k >= pl.stopAt && k < pl.stopAt+pl.stops {
			ask(w, k)
			if pl.twice {
				ask(w, k)
			}
		}
		yield()
		d.add("E", id)
	})
	if pl.outside {
		go func() {
			time.Sleep(time.Duration(pick(500)) * time.Microsecond)
			ask(w, -1)
		}()
	}
	go func() {
		w.Walk()
		if err := w.Err(); err == nil {
			d.add("R", 0)
		} else {
			d.add("RE", 0)
			d.mu.Lock()
			if !mine[err] && !(d.errs && os.IsNotExist(err)) {
				d.fail = fmt.Sprintf("the error is %v", err)
			}
			d.mu.Unlock()
		}
		close(d.ret)
	}()
	return d
}

func dwAlive() (int, string) {
	buf := make([]byte, 8<<20)
	n := runtime.Stack(buf, true)
	k, at := 0, ""
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, "util.(*DirWalker)") && !strings.Contains(g, "WaitGroup).Wait(") { // what waits for the end of a stopped walk handles nothing
			k++
			at = g
		}
	}
	return k, at
}

func dwParents(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	for _, p := range dwParents(n - 1) {
		for k := 0; k < n-1; k++ {
			out = append(out, append(append([]int{}, p...), k))
		}
	}
	return out
}

const dwWait = 20 * time.Second

func dwCheck(c *core.Ctx) {
	c.Exhaustive = false
	c.Rule = "the algorithm is model checked on all trees within the bounds; walks of real trees are recorded and each trace is checked against the specification of walks"
	confs := []string{"3 1 1 2", "3 1 2 1", "2 1 2 2", "4 0 2 0"}
	if c.Thorough {
		confs = append(confs, "3 1 3 1", "4 1 2 1", "4 0 3 1", "5 0 2 0")
	}
	for _, cf := range confs {
		x := strings.Fields(cf)
		res, err := (&tlc.Run{SpecDir: specDir(), Module: "DirWalk", Workers: 8,
			Consts:   map[string]string{"ND": x[0], "NF": x[1], "W": x[2], "STOPS": x[3]},
			CfgExtra: "SPECIFICATION Spec\nINVARIANTS Once Complete QueueOk Reported\nPROPERTIES Returns NoLeak\nCHECK_DEADLOCK FALSE\n"}).Exec()
		if err != nil {
			core.Fatal("DirWalk %s: %v", cf, err)
		}
		c.States += res.Distinct
		c.Transitions += res.Generated
	}
	c.Logf("algorithm model checked")
	base, err := os.MkdirTemp("", "verif-dw-")
	if err != nil {
		core.Fatal("%v", err)
	}
	defer os.RemoveAll(base)
	rnd := rand.New(rand.NewSource(c.Seed))
	var trees []*dwTree
	for n := 1; n <= 4; n++ {
		for _, p := range dwParents(n) {
			fs := make([]int, n)
			for i := range fs {
				fs[i] = rnd.Intn(3)
			}
			trees = append(trees, dwBuild(base, fmt.Sprintf("s%d", len(trees)), p, fs, rnd, n > 2))
		}
	}
	big := 12
	if c.Thorough {
		big = 60
	}
	for i := 0; i < big; i++ {
		n := 5 + rnd.Intn(40)
		p, fs := make([]int, n), make([]int, n)
		for k := 1; k < n; k++ {
			switch i % 4 {
			case 0: // wide
				p[k] = 0
			case 1: // deep
				p[k] = k - 1
			case 2:
				p[k] = rnd.Intn(k)
			default:
				p[k] = (k - 1) / 3
			}
		}
		for k := range fs {
			if rnd.Intn(2) == 0 {
				fs[k] = rnd.Intn(4)
			}
		}
		trees = append(trees, dwBuild(base, fmt.Sprintf("b%d", i), p, fs, rnd, true))
	}
	// plans
	type job struct {
		t  *dwTree
		w  int
		pl dwPlan
	}
	var jobs []job
	reps := 10
	if c.Thorough {
		reps = 60
	}
	nfresh := 0
	for ti, t := range trees {
		for _, w := range []int{1, 2, 3, 16, 0} {
			for r := 0; r < reps; r++ {
				sp := []string{"", "/", "/."}[(ti+r)%3]
				jobs = append(jobs, job{t, w, dwPlan{yield: (r + w) % 3, spell: sp}})
				jobs = append(jobs, job{t, w, dwPlan{yield: r % 3, stopAt: 1 + rnd.Intn(len(t.nodes)), stops: 1 + rnd.Intn(3), twice: rnd.Intn(2) == 0}})
			}
			jobs = append(jobs, job{t, w, dwPlan{stopAt: 1, stops: 1000, yield: 2}})
			jobs = append(jobs, job{t, w, dwPlan{outside: true, yield: 2}})
			if ti%7 == 0 {
				jobs = append(jobs, job{t, w, dwPlan{missing: true}})
			}
			if len(t.nodes) > 1 && (ti%3 == 0 || c.Thorough) {
				// a fresh tree: part of it is removed
				n := 2 + rnd.Intn(8)
				p, fs := make([]int, n), make([]int, n)
				for k := 1; k < n; k++ {
					p[k] = rnd.Intn(k)
					fs[k] = rnd.Intn(2)
				}
				ft := dwBuild(base, fmt.Sprintf("f%d", nfresh), p, fs, rnd, false)
				nfresh++
				kids := []int{}
				for i, nd := range ft.nodes {
					if nd.par == 1 && nd.dir {
						kids = append(kids, i+1)
					}
				}
				pl := dwPlan{remove: kids[rnd.Intn(len(kids))], yield: rnd.Intn(3)}
				if rnd.Intn(3) == 0 {
					pl.stopAt, pl.stops = 1+rnd.Intn(3), 1
				}
				jobs = append(jobs, job{ft, w, pl})
			}
		}
	}
	rnd.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	traces := make([]*dwTrace, len(jobs))
	core.Parallel(len(jobs), func(w, i int) {
		if c.Violations() > 3 {
			return
		}
		j := jobs[i]
		desc := fmt.Sprintf("%s %d workers %+v", j.t.name, j.w, j.pl)
		core.Guard(w, desc, func() {
			d := dwRun(j.t, j.w, j.pl, c.Seed*1000003+int64(i))
			traces[i] = d
			select {
			case <-d.ret:
			case <-time.After(dwWait):
				_, at := dwAlive()
				d.mu.Lock()
				ev := strings.Join(d.ev, " ")
				d.mu.Unlock()
				c.Violation("does not return", map[string]interface{}{"walk": d.what, "what": "the walk does not return", "events": ev, "goroutine": at})
			}
		})
	})
	if c.Violations() > 0 {
		return
	}
	c.Logf("%d walks recorded", len(jobs))
	for t0 := time.Now(); ; time.Sleep(20 * time.Millisecond) {
		k, at := dwAlive()
		if k == 0 {
			break
		}
		if time.Since(t0) > dwWait {
			c.Violation("workers left", map[string]interface{}{"what": fmt.Sprintf("%d workers are still there after all walks returned", k), "goroutine": at})
			return
		}
	}
	for _, d := range traces {
		if d.fail != "" {
			c.Violation("walk: "+d.fail, map[string]interface{}{"walk": d.what, "what": d.fail})
		}
	}
	// the recorded traces against the specification
	const batch = 250
	nb := (len(traces) + batch - 1) / batch
	var mu sync.Mutex
	core.Parallel(nb, func(w, b int) {
		lo, hi := b*batch, (b+1)*batch
		if hi > len(traces) {
			hi = len(traces)
		}
		var sb strings.Builder
		sb.WriteString("---- MODULE Traces ----\nEXTENDS Naturals, Sequences\nNd(x) == [dir |-> x[1], par |-> x[2], prev |-> x[3]]\n" +
			"Tr(t, w, e, ev) == [tree |-> [k \\in 1..Len(t) |-> Nd(t[k])], workers |-> w, errs |-> e, events |-> ev]\n")
		var nm []string
		for i := lo; i < hi; i++ {
			fmt.Fprintf(&sb, "T%d == %s\n", i-lo, traces[i].tla())
			nm = append(nm, fmt.Sprintf("T%d", i-lo))
		}
		sb.WriteString("TraceSeq == <<" + strings.Join(nm, ",") + ">>\n====\n")
		acc := map[int]bool{}
		far := map[int]int{}
		res, err := (&tlc.Run{SpecDir: specDir(), Module: "DirTrace", Workers: 1, Files: map[string]string{"Traces.tla": sb.String()},
			CfgExtra: "SPECIFICATION Spec\nINVARIANT Accept\nINVARIANT Far\nCHECK_DEADLOCK FALSE\n",
			OnPrint: func(tag string, a []string) {
				var x, y int
				fmt.Sscan(a[0], &x, &y)
				if tag == "A" {
					acc[x] = true
				} else if far[x] < y {
					far[x] = y
				}
			}}).Exec()
		if err != nil {
			core.Fatal("DirTrace: %v", err)
		}
		mu.Lock()
		defer mu.Unlock()
		c.States += res.Distinct
		c.Transitions += res.Generated
		for i := lo; i < hi; i++ {
			if acc[i-lo+1] {
				c.Traces++
				continue
			}
			d := traces[i]
			k := far[i-lo+1] - 1
			if k < 0 {
				k = 0
			}
			at := "the end of the trace"
			if k < len(d.ev) {
				at = fmt.Sprintf("event %d %s", k+1, d.ev[k])
			}
			c.Violation(d.what, map[string]interface{}{"walk": d.what, "what": "the recorded walk is not a behaviour of the specification at " + at,
				"events": strings.Join(d.ev, " "), "tree": d.tla()})
		}
	})
	c.Evaluations += int64(len(traces))
	c.Distinct += int64(len(trees) + nfresh)
	c.Extra["trees"] = len(trees) + nfresh
	c.Sample(traces[0].what)
	c.Sample(strings.Join(traces[0].ev, " "))
}

func init() {
	checks["C20"] = dwCheck
	reruns["C20"] = func(in string) {
		c := core.NewCtx("C20")
		dwCheck(c)
	}
}
