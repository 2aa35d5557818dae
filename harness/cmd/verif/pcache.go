package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hsiaosiyuan0/mole/parseutil"

	"verif/harness/internal/core"
	"verif/harness/internal/tlc"
)

type pcResult struct{ file, code string }

// the parser under the control of the harness
type pcParser struct {
	typ     uint8
	mu      sync.Mutex
	started map[string]int
	gate    map[string]chan struct{}
	start   map[string]chan struct{}
	bad     string
	result  func(file string) interface{}
}

func newPcParser(typ uint8, files []string, gated bool, result func(string) interface{}) *pcParser {
	p := &pcParser{typ: typ, started: map[string]int{}, gate: map[string]chan struct{}{}, start: map[string]chan struct{}{}, result: result}
	for _, f := range files {
		p.gate[f] = make(chan struct{})
		p.start[f] = make(chan struct{}, 100)
		if !gated {
			close(p.gate[f])
		}
	}
	return p
}

func (p *pcParser) Type() uint8 { return p.typ }
func (p *pcParser) Parse(file, code string, readFile bool, biz interface{}) parseutil.Parsed {
	p.mu.Lock()
	p.started[file]++
	if code != "code of "+file || !readFile || biz != "biz "+file {
		p.bad = fmt.Sprintf("parser called with %q %q %v %v", file, code, readFile, biz)
	}
	p.mu.Unlock()
	p.start[file] <- struct{}{}
	<-p.gate[file]
	return p.result(file)
}

func (p *pcParser) count(f string) int { p.mu.Lock(); defer p.mu.Unlock(); return p.started[f] }

var pcResults = []func(string) interface{}{
	func(f string) interface{} { return &pcResult{f, "x"} },
	func(f string) interface{} { return "result " + f },
	func(f string) interface{} { return nil },
	func(f string) interface{} { var v parseutil.Parsed = "r" + f; return &v },
	func(f string) interface{} { return make(chan interface{}, 1) },
}

func pcFile(k int) string { return fmt.Sprintf("f%d", k) }

const pcWait = 20 * time.Second

// pcReplay runs one schedule; shared results are compared by identity
func pcReplay(h []string, keys int, parses []int, kind int) string {
	files := []string{}
	for k := 1; k <= keys; k++ {
		files = append(files, pcFile(k))
	}
	memo := map[string]interface{}{}
	for _, f := range files {
		memo[f] = pcResults[kind](f)
	}
	res := func(f string) interface{} { return memo[f] }
	ps := []*pcParser{newPcParser(0, files, true, res), newPcParser(1, files, true, res)}
	of := func(k int) *pcParser { return ps[k%2] }
	c := parseutil.NewParseCache[int]()
	c.SetParser(ps[0])
	c.SetParser(ps[1])
	fut := map[int]parseutil.FutureParsed{}
	asked := map[int]bool{}
	for _, st := range h {
		var r, k int
		fmt.Sscanf(st[1:], "%d %d", &r, &k)
		f := pcFile(k)
		switch st[0] {
		case 'q':
			ch := make(chan parseutil.FutureParsed, 1)
			pan := make(chan string, 1)
			go func() {
				defer func() {
					if e := recover(); e != nil {
						pan <- fmt.Sprint(e)
					}
				}()
				ch <- c.Parse(uint8(k%2), k, f, "code of "+f, true, "biz "+f)
			}()
			select {
			case fut[r] = <-ch:
			case e := <-pan:
				return fmt.Sprintf("request %d panics: %s", r, e)
			case <-time.After(pcWait):
				return fmt.Sprintf("request %d does not return", r)
			}
			if !asked[k] {
				asked[k] = true
				select {
				case <-of(k).start[f]:
				case <-time.After(pcWait):
					return fmt.Sprintf("the parse of key %d does not start", k)
				}
			}
		case 'd':
			close(of(k).gate[f])
		case 'r':
			select {
			case v := <-fut[r]:
				if v != memo[f] {
					return fmt.Sprintf("request %d got %v, the parse of key %d is %v", r, v, k, memo[f])
				}
			case <-time.After(pcWait):
				return fmt.Sprintf("request %d of key %d is not answered", r, k)
			}
		}
	}
	for k := 1; k <= keys; k++ {
		if n := of(k).count(pcFile(k)); n != parses[k-1] {
			return fmt.Sprintf("key %d is parsed %d times, expected %d", k, n, parses[k-1])
		}
		if n := ps[1-k%2].count(pcFile(k)); n != 0 {
			return fmt.Sprintf("key %d is parsed by the parser of another type", k)
		}
	}
	for _, p := range ps {
		if p.bad != "" {
			return p.bad
		}
	}
	return ""
}

// pcStress: requests from several goroutines at once; what is observed must be a behaviour of the specification:
// one parse per key, every request answered with it.
func pcStress(seed int64, rounds int) string {
	for i := 0; i < rounds; i++ {
		rnd := rand.New(rand.NewSource(seed + int64(i)))
		nk := 1 + rnd.Intn(2)
		nr := 2 + rnd.Intn(5)
		var files []string
		memo := map[string]interface{}{}
		kind := rnd.Intn(len(pcResults))
		for k := 1; k <= nk; k++ {
			files = append(files, pcFile(k))
			memo[pcFile(k)] = pcResults[kind](pcFile(k))
		}
		res := func(f string) interface{} { return memo[f] }
		ps := []*pcParser{newPcParser(0, files, false, res), newPcParser(1, files, false, res)}
		c := parseutil.NewParseCache[int]()
		c.SetParser(ps[0])
		c.SetParser(ps[1])
		start := make(chan struct{})
		errs := make(chan string, nr)
		for r := 0; r < nr; r++ {
			k := 1 + rnd.Intn(nk)
			go func(r, k int) {
				defer func() {
					if e := recover(); e != nil {
						errs <- fmt.Sprintf("request of key %d panics: %v", k, e)
					}
				}()
				<-start
				f := pcFile(k)
				ch := c.Parse(uint8(k%2), k, f, "code of "+f, true, "biz "+f)
				select {
				case v := <-ch:
					if v != memo[f] {
						errs <- fmt.Sprintf("request of key %d got %v", k, v)
						return
					}
					errs <- ""
				case <-time.After(pcWait):
					errs <- fmt.Sprintf("request of key %d is not answered", k)
				}
			}(r, k)
		}
		close(start)
		for r := 0; r < nr; r++ {
			if e := <-errs; e != "" {
				return e
			}
		}
		for k := 1; k <= nk; k++ {
			if n := ps[k%2].count(pcFile(k)); n > 1 {
				return fmt.Sprintf("key %d is parsed %d times by concurrent requests", k, n)
			}
		}
	}
	return ""
}

func init() {
	checks["C19"] = func(c *core.Ctx) {
		c.Exhaustive = true
		c.Rule = "every complete schedule of the specification with a controlled parser, then concurrent requests"
		type sched struct {
			h      []string
			keys   int
			parses []int
		}
		var ss []sched
		confs := [][2]int{{3, 1}, {3, 2}, {4, 1}, {4, 2}}
		if c.Thorough {
			confs = append(confs, [2]int{5, 2}, [2]int{4, 3})
		}
		for _, cf := range confs {
			r := &tlc.Run{SpecDir: specDir(), Module: "ParseCache", Workers: 1,
				Consts:   map[string]string{"NReq": fmt.Sprint(cf[0]), "NKeys": fmt.Sprint(cf[1])},
				CfgExtra: "SPECIFICATION Spec\nINVARIANT OneParse\nINVARIANT Parsed\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
				OnPrint: func(tag string, a []string) {
					if tag == "H" {
						h, _ := tlc.ParseTuple(a[0])
						ps, _ := tlc.ParseTuple(a[1])
						s := sched{h: h, keys: cf[1]}
						for _, p := range ps {
							n := 0
							fmt.Sscan(p, &n)
							s.parses = append(s.parses, n)
						}
						ss = append(ss, s)
					}
				}}
			if cf[0] <= 3 {
				r.CfgExtra += "PROPERTY AllAnswered\n"
			}
			res, err := r.Exec()
			if err != nil {
				core.Fatal("ParseCache: %v", err)
			}
			c.States += res.Distinct
			c.Transitions += res.Generated
		}
		if len(ss) == 0 {
			core.Fatal("no schedules")
		}
		var n int64
		core.Parallel(len(ss), func(w, i int) {
			if c.Violations() > 5 {
				return
			}
			s := ss[i]
			core.Guard(w, "sched", func() {
				for kind := range pcResults {
					if d := pcReplay(s.h, s.keys, s.parses, kind); d != "" {
						c.Violation(fmt.Sprintf("schedule %v result kind %d", s.h, kind), map[string]interface{}{"schedule": strings.Join(s.h, ", "),
							"result_kind": kind, "what": d, "legend": "q R K: request R asks for key K; d 0 K: the parse of K ends; r R K: request R receives"})
						return
					}
					atomic.AddInt64(&n, 1)
				}
			})
		})
		c.Logf("%d schedules replayed", n)
		rounds := 3000
		if c.Thorough {
			rounds = 60000
		}
		if c.Violations() == 0 {
			core.Parallel(8, func(w, i int) {
				core.Guard(w, "stress", func() {
					for b := 0; b < rounds/100; b++ {
						if core.TheSlots != nil {
							core.TheSlots.Begin(w, "stress")
						}
						if d := pcStress(c.Seed*1000000+int64(i*100000+b*100), 100); d != "" {
							c.Violation("concurrent: "+d, map[string]interface{}{"what": d})
							return
						}
					}
				})
			})
		}
		c.Extra["schedules"] = n
		c.Extra["concurrent rounds"] = rounds * 8
		c.Traces += n + int64(rounds*8)
		c.Evaluations += n + int64(rounds*8)
		c.Distinct += int64(len(ss))
		c.Sample(strings.Join(ss[len(ss)/2].h, ", "))
	}
	reruns["C19"] = func(in string) { pcStress(1, 200000) }
}
