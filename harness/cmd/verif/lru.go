package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hsiaosiyuan0/mole/util"

	"verif/harness/internal/core"
	"verif/harness/internal/tlc"
)

type lruOp struct {
	op   string
	k, v int
}

func (o lruOp) String() string { return fmt.Sprintf("%s(%d,%d)", o.op, o.k, o.v) }

type kv struct{ k, v int }

type lruCfg struct {
	kind     string
	cap, clr int
}

type lruGraph struct {
	next map[string]map[lruOp]string // state -> op -> state
	ops  []lruOp
}

var pairCache sync.Map

func lruPairs(s string) []kv {
	if v, ok := pairCache.Load(s); ok {
		return v.([]kv)
	}
	var r []kv
	nums := strings.FieldsFunc(s, func(r rune) bool { return r < '0' || r > '9' })
	for i := 0; i+1 < len(nums); i += 2 {
		k, _ := strconv.Atoi(nums[i])
		v, _ := strconv.Atoi(nums[i+1])
		r = append(r, kv{k, v})
	}
	pairCache.Store(s, r)
	return r
}

type container interface {
	do(lruOp)
	has(int) bool
	get(int) int
	order() ([]kv, bool)
}

type lruC struct{ c *util.LruCache[int, int] }

func (l lruC) do(o lruOp)          { l.c.Set(o.k, o.v) }
func (l lruC) has(k int) bool      { return l.c.HasKey(k) }
func (l lruC) get(k int) int       { return l.c.Get(k) }
func (l lruC) order() ([]kv, bool) { return nil, false }

type mapC struct{ m *util.OrderedMap[int, int] }

func (l mapC) do(o lruOp) {
	if o.op == "set" {
		l.m.Set(o.k, o.v)
	} else {
		l.m.Remove(o.k)
	}
}
func (l mapC) has(k int) bool { return l.m.HasKey(k) }
func (l mapC) get(k int) int  { return l.m.Get(k) }
func (l mapC) order() ([]kv, bool) {
	var r []kv
	n := 0
	for e := l.m.Front(); e != nil && n < 1000; e = e.Next() {
		p := e.Value.(*util.KvPair[int, int])
		r = append(r, kv{p.Key, p.Val})
		n++
	}
	return r, true
}

func newContainer(c lruCfg) container {
	if c.kind == "lru" {
		return lruC{util.NewLruCache[int, int](c.cap, c.clr)}
	}
	return mapC{util.NewOrderedMap[int, int]()}
}

// observation: what every key answers, compared with the state
func lruObserve(c container, st string, keys int) string {
	ps := lruPairs(st)
	m := map[int]int{}
	for _, p := range ps {
		m[p.k] = p.v
	}
	for k := 1; k <= keys; k++ {
		v, ok := m[k]
		if c.has(k) != ok {
			return fmt.Sprintf("HasKey(%d) is %v", k, c.has(k))
		}
		if c.get(k) != v {
			return fmt.Sprintf("Get(%d) is %d, expected %d", k, c.get(k), v)
		}
	}
	if o, ok := c.order(); ok {
		if len(o) != len(ps) {
			return fmt.Sprintf("iterates %v, expected %v", o, ps)
		}
		for i := range o {
			if o[i] != ps[i] {
				return fmt.Sprintf("iterates %v, expected %v", o, ps)
			}
		}
	}
	return ""
}

func lruDerive(c *core.Ctx, nkeys, nvals, maxcap int, kinds string) map[lruCfg]*lruGraph {
	gs := map[lruCfg]*lruGraph{}
	r := &tlc.Run{SpecDir: specDir(), Module: "Lru", Workers: 1,
		Consts:   map[string]string{"NKeys": fmt.Sprint(nkeys), "NVals": fmt.Sprint(nvals), "MaxCap": fmt.Sprint(maxcap), "KINDS": kinds},
		CfgExtra: "SPECIFICATION Spec\nINVARIANT Bounded\nINVARIANT Unique\nPROPERTY Stores\nCHECK_DEADLOCK FALSE\n",
		OnPrint: func(tag string, a []string) {
			if tag != "T" {
				return
			}
			a = strings.Split(a[0], "|")
			n := func(s string) int { v, _ := strconv.Atoi(s); return v }
			cfg := lruCfg{a[0], n(a[1]), n(a[2])}
			g := gs[cfg]
			if g == nil {
				g = &lruGraph{next: map[string]map[lruOp]string{}}
				gs[cfg] = g
			}
			op := lruOp{a[4], n(a[5]), n(a[6])}
			if g.next[a[3]] == nil {
				g.next[a[3]] = map[lruOp]string{}
			}
			g.next[a[3]][op] = a[7]
		}}
	res, err := r.Exec()
	if err != nil {
		core.Fatal("Lru: %v", err)
	}
	atomic.AddInt64(&c.States, res.Distinct)
	atomic.AddInt64(&c.Transitions, res.Generated)
	for _, g := range gs {
		for op := range g.next["<<>>"] {
			g.ops = append(g.ops, op)
		}
		sort.Slice(g.ops, func(i, j int) bool { return g.ops[i].String() < g.ops[j].String() })
	}
	return gs
}

func sortedCfgs(gs map[lruCfg]*lruGraph) []lruCfg {
	var cs []lruCfg
	for c := range gs {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return fmt.Sprint(cs[i]) < fmt.Sprint(cs[j]) })
	return cs
}

func lruRun(c *core.Ctx, cfg lruCfg, g *lruGraph, ops []lruOp, keys int, every bool) {
	ct := newContainer(cfg)
	st := "<<>>"
	for i, o := range ops {
		ct.do(o)
		st = g.next[st][o]
		if every || i == len(ops)-1 {
			if d := lruObserve(ct, st, keys); d != "" {
				c.Violation(fmt.Sprintf("%v %v", cfg, ops[:i+1]), map[string]interface{}{"container": cfg.kind, "capacity": cfg.cap, "clear": cfg.clr,
					"operations": fmt.Sprint(ops[:i+1]), "what": d, "expected_state": st})
				return
			}
		}
	}
}

type linEv struct {
	op       lruOp // set, get, has
	res      int
	inv, ret int64
}

// linearizable: some order of the events that respects real time is a path of the graph with these answers
func linearizable(g *lruGraph, evs []linEv) bool {
	done := make([]bool, len(evs))
	var rec func(st string, left int) bool
	rec = func(st string, left int) bool {
		if left == 0 {
			return true
		}
		minRet := int64(1) << 62
		for i, e := range evs {
			if !done[i] && e.ret < minRet {
				minRet = e.ret
			}
		}
		for i, e := range evs {
			if done[i] || e.inv > minRet {
				continue
			}
			n := st
			switch e.op.op {
			case "set":
				n = g.next[st][e.op]
			case "get", "has":
				want := 0
				for _, p := range lruPairs(st) {
					if p.k == e.op.k {
						want = p.v
						if e.op.op == "has" {
							want = 1
						}
					}
				}
				if want != e.res {
					continue
				}
			}
			done[i] = true
			if rec(n, left-1) {
				return true
			}
			done[i] = false
		}
		return false
	}
	return rec("<<>>", len(evs))
}

func lruStress(c *core.Ctx, gs map[lruCfg]*lruGraph, cfgs []lruCfg, keys, vals, rounds int, seed int64) int64 {
	var hist int64
	for round := 0; round < rounds; round++ {
		rnd := rand.New(rand.NewSource(seed + int64(round)))
		cfg := cfgs[rnd.Intn(len(cfgs))]
		g := gs[cfg]
		cache := util.NewLruCache[int, int](cfg.cap, cfg.clr)
		var evs []linEv
		t0 := time.Now()
		now := func() int64 { return int64(time.Since(t0)) }
		// sequential beginning fills the cache
		for i := 0; i < cfg.cap; i++ {
			o := lruOp{"set", 1 + rnd.Intn(keys), 1 + rnd.Intn(vals)}
			e := linEv{op: o, inv: now()}
			cache.Set(o.k, o.v)
			e.ret = now()
			evs = append(evs, e)
		}
		const th = 4
		plans := make([][]lruOp, th)
		hot := 1 + rnd.Intn(keys)
		for t := range plans {
			for i := 0; i < 2; i++ {
				op := []string{"set", "set", "get", "has"}[rnd.Intn(4)]
				k := hot
				if rnd.Intn(2) == 0 {
					k = 1 + rnd.Intn(keys)
				}
				v := 0
				if op == "set" {
					v = 1 + rnd.Intn(vals)
				}
				plans[t] = append(plans[t], lruOp{op, k, v})
			}
		}
		res := make([][]linEv, th)
		var ready, wg sync.WaitGroup
		start := make(chan struct{})
		for t := 0; t < th; t++ {
			ready.Add(1)
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				out := make([]linEv, 0, 2)
				ready.Done()
				<-start
				for _, o := range plans[t] {
					e := linEv{op: o, inv: now()}
					switch o.op {
					case "set":
						cache.Set(o.k, o.v)
					case "get":
						e.res = cache.Get(o.k)
					case "has":
						if cache.HasKey(o.k) {
							e.res = 1
						}
					}
					e.ret = now()
					out = append(out, e)
				}
				res[t] = out
			}(t)
		}
		ready.Wait()
		close(start)
		wg.Wait()
		for _, r := range res {
			evs = append(evs, r...)
		}
		for k := 1; k <= keys; k++ {
			e := linEv{op: lruOp{"get", k, 0}, inv: now()}
			e.res = cache.Get(k)
			e.ret = now()
			evs = append(evs, e)
		}
		hist++
		if !linearizable(g, evs) {
			if c == nil {
				continue
			}
			c.Violation(fmt.Sprintf("concurrent %v", cfg), map[string]interface{}{"capacity": cfg.cap, "clear": cfg.clr, "history": fmt.Sprintf("%+v", evs),
				"what": "the concurrent history is no sequential path of the specification"})
			return hist
		}
	}
	return hist
}

func init() {
	checks["C18"] = func(c *core.Ctx) {
		c.Exhaustive = true
		c.Rule = "all operation sequences up to the bound over the printed transition graph, then random long ones and concurrent histories"
		nk, nv, mc, l := 4, 2, 4, 6
		if c.Thorough {
			mc, l = 5, 7
		}
		gs := lruDerive(c, nk, nv, mc, `{"lru", "map"}`)
		cfgs := sortedCfgs(gs)
		var n int64
		core.Parallel(len(cfgs)*len(gs[cfgs[0]].ops), func(w, i int) {
			cfg := cfgs[i%len(cfgs)]
			g := gs[cfg]
			fi := i / len(cfgs)
			if fi >= len(gs[cfgs[0]].ops) {
				return
			}
			depth := l
			if cfg.kind == "map" {
				depth = l - 1
			}
			core.Guard(w, "seq "+fmt.Sprint(cfg), func() {
				for first := fi; first < len(g.ops); first += len(gs[cfgs[0]].ops) {
					ops := []lruOp{g.ops[first]}
					var rec func()
					rec = func() {
						if c.Enough() {
							return
						}
						lruRun(c, cfg, g, ops, nk, false)
						atomic.AddInt64(&n, 1)
						if len(ops) >= depth {
							return
						}
						for _, o := range g.ops {
							ops = append(ops, o)
							rec()
							ops = ops[:len(ops)-1]
						}
					}
					rec()
				}
			})
		})
		c.Logf("%d configurations, %d operation sequences of at most %d operations", len(cfgs), n, l)
		c.Extra["sequences"] = fmt.Sprintf("configurations=%d sequences=%d length<=%d keys=%d values=%d capacity<=%d", len(cfgs), n, l, nk, nv, mc)
		// larger caches, long random sequences
		big := lruDerive(c, 7, 1, 6, `{"lru"}`)
		bc := sortedCfgs(big)
		var m int64
		runs := 400
		if c.Thorough {
			runs = 4000
		}
		core.Parallel(len(bc), func(w, i int) {
			cfg := bc[i]
			g := big[cfg]
			rnd := rand.New(rand.NewSource(c.Seed*1000 + int64(i)))
			core.Guard(w, "long "+fmt.Sprint(cfg), func() {
				for r := 0; r < runs && !c.Enough(); r++ {
					var ops []lruOp
					for j := 0; j < 60; j++ {
						ops = append(ops, g.ops[rnd.Intn(len(g.ops))])
					}
					lruRun(c, cfg, g, ops, 7, true)
					atomic.AddInt64(&m, 1)
				}
			})
		})
		c.Extra["long sequences"] = m
		// concurrent histories
		var lc []lruCfg
		for _, k := range cfgs {
			if k.kind == "lru" {
				lc = append(lc, k)
			}
		}
		rounds := 4000
		if c.Thorough {
			rounds = 60000
		}
		var h int64
		var wg sync.WaitGroup
		for w := 0; w < 3; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for b := 0; b < rounds/500; b++ {
					core.Guard(w, "stress", func() {
						atomic.AddInt64(&h, lruStress(c, gs, lc, nk, nv, 500, c.Seed*1000003+int64(w*100000+b*500)))
					})
					if c.Violations() > 0 {
						return
					}
				}
			}(w)
		}
		wg.Wait()
		c.Extra["concurrent histories"] = h
		c.Logf("%d long sequences, %d concurrent histories", m, h)
		c.Traces += n + m + h
		c.Evaluations += n + m + h
		c.Distinct += n
		c.Sample(fmt.Sprint(cfgs[0], " ", gs[cfgs[0]].ops))
	}
	reruns["C18"] = func(in string) {
		gs := lruDerive(core.NewCtx("C18"), 4, 2, 4, `{"lru", "map"}`)
		var lc []lruCfg
		for _, k := range sortedCfgs(gs) {
			if k.kind == "lru" {
				lc = append(lc, k)
			}
		}
		lruStress(nil, gs, lc, 4, 2, 20000, 1)
	}
}
