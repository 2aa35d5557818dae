// Package core: verdicts, evidence, known findings, crash and hang supervision.
package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var Root = "/verif"

type Ctx struct {
	ID       string
	Tier     string
	Seed     int64
	Thorough bool
	start    time.Time

	mu         sync.Mutex
	violations int
	reported   int
	known      []Finding
	knownHit   map[string]bool
	maxReport  int

	States, Transitions, Traces, Evaluations, Distinct int64
	Samples                                            []interface{}
	Extra                                              map[string]interface{}
	Assumptions                                        []string
	Level                                              string
	Rule                                               string
	Exhaustive                                         bool
	EvidenceNote                                       string
}

type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`  // exact key of the failing case
	What     string `json:"what"` // description
}

type findingsFile struct {
	Findings []Finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func NewCtx(id string) *Ctx {
	c := &Ctx{ID: id, Tier: os.Getenv("VERIF_TIER"), start: time.Now(), knownHit: map[string]bool{}, maxReport: 5,
		Extra: map[string]interface{}{}, Level: "model_checking"}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Thorough = c.Tier == "thorough"
	c.Seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			c.Seed = v
		}
	}
	if b, err := os.ReadFile(filepath.Join(Root, "known-findings.json")); err == nil {
		var f findingsFile
		if err := json.Unmarshal(b, &f); err != nil {
			Fatal("known-findings.json: %v", err)
		}
		for _, x := range f.Findings {
			if x.Property == id {
				c.known = append(c.known, x)
			}
		}
	}
	return c
}

// Fatal: the check itself failed (neither 0 nor 1).
func Fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", a...)
	os.Exit(3)
}

// Violation records a failing case.  key identifies it; detail is what a person needs.
func (c *Ctx) Violation(key string, detail map[string]interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.Key == key {
			if !c.knownHit[key] {
				c.knownHit[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
			}
			return
		}
	}
	c.violations++
	if c.reported >= c.maxReport {
		return
	}
	c.reported++
	dir := filepath.Join(Root, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, c.reported))
	detail["property"] = c.ID
	detail["key"] = key
	b, _ := json.MarshalIndent(detail, "", " ")
	os.WriteFile(p, b, 0o644)
	var ks []string
	for k := range detail {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
	for _, k := range ks {
		s := fmt.Sprint(detail[k])
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		fmt.Printf("  %s: %s\n", k, strings.ReplaceAll(s, "\n", "\\n"))
	}
}

func (c *Ctx) Violations() int { c.mu.Lock(); defer c.mu.Unlock(); return c.violations }

// Enough reports whether exploring further is pointless.
func (c *Ctx) Enough() bool { return c.Violations() >= 50 }

func (c *Ctx) Sample(s interface{}) {
	c.mu.Lock()
	if len(c.Samples) < 12 {
		c.Samples = append(c.Samples, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) Logf(format string, a ...interface{}) {
	fmt.Printf("[%s %6.1fs] %s\n", c.ID, time.Since(c.start).Seconds(), fmt.Sprintf(format, a...))
}

func (c *Ctx) writeEvidence() {
	cov := map[string]interface{}{}
	for k, v := range c.Extra {
		cov[k] = v
	}
	if c.Level == "model_checking" {
		cov["states"] = c.States
		cov["transitions"] = c.Transitions
		cov["traces_validated_against_impl"] = c.Traces
	} else {
		cov["evaluations"] = c.Evaluations
		cov["distinct_nontrivial"] = c.Distinct
	}
	if c.Evaluations > 0 {
		cov["evaluations"] = c.Evaluations
	}
	if c.Distinct > 0 {
		cov["distinct_nontrivial"] = c.Distinct
	}
	if c.Rule != "" {
		cov["rule"] = c.Rule
	}
	if c.Samples == nil {
		c.Samples = []interface{}{}
	}
	cov["samples"] = c.Samples
	cov["exhaustive"] = c.Exhaustive
	var ks []string
	for k := range c.knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	ev := map[string]interface{}{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"wall_s": time.Since(c.start).Seconds(), "violations": c.violations}
	if len(ks) > 0 {
		cov["known_findings_hit"] = ks
	}
	if len(c.Assumptions) > 0 {
		ev["assumptions"] = c.Assumptions
	}
	dir := filepath.Join(Root, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		Fatal("evidence: %v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		Fatal("evidence: %v", err)
	}
}

// Finish writes the evidence and exits.
func (c *Ctx) Finish() {
	c.mu.Lock()
	v := c.violations
	c.mu.Unlock()
	c.writeEvidence()
	if v > 0 {
		fmt.Printf("[%s] %d violation(s)\n", c.ID, v)
		os.Exit(1)
	}
	c.Logf("held on everything explored (%d spec states, %d validated traces, %d evaluations)", c.States, c.Traces, c.Evaluations)
	os.Exit(0)
}

// ---------------------------------------------------------------- slots
// Each worker notes the input it is working on in a shared memory slot, so that a crash of the whole
// process (stack overflow, out of memory) or a hang can be attributed.

const slotSize = 1 << 16
const NSlots = 64

type Slots struct {
	mem   []byte
	path  string
	since [NSlots]int64
}

func OpenSlots(path string) (*Slots, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(slotSize * NSlots); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, slotSize*NSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Slots{mem: mem, path: path}, nil
}

func (s *Slots) Begin(i int, what string) {
	m := s.mem[i*slotSize : (i+1)*slotSize]
	if len(what) > slotSize-8 {
		what = what[:slotSize-8]
	}
	copy(m[4:], what)
	binary.LittleEndian.PutUint32(m, uint32(len(what)))
	atomic.StoreInt64(&s.since[i], time.Now().UnixNano())
}

func (s *Slots) End(i int) {
	atomic.StoreInt64(&s.since[i], 0)
	binary.LittleEndian.PutUint32(s.mem[i*slotSize:], 0)
}

func (s *Slots) Get(i int) string {
	m := s.mem[i*slotSize : (i+1)*slotSize]
	n := binary.LittleEndian.Uint32(m)
	if n > slotSize-8 {
		return ""
	}
	return string(m[4 : 4+n])
}

var TheSlots *Slots

// Watch reports a case that does not end within lim as a violation and ends the process.
func (c *Ctx) Watch(lim time.Duration) {
	if TheSlots == nil {
		return
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			now := time.Now().UnixNano()
			for i := 0; i < NSlots; i++ {
				t := atomic.LoadInt64(&TheSlots.since[i])
				if t != 0 && now-t > int64(lim) {
					buf := make([]byte, 1<<16)
					n := runtime.Stack(buf, true)
					w := TheSlots.Get(i)
					c.Violation("hang: "+w, map[string]interface{}{"input": w, "what": fmt.Sprintf("no result within %v", lim), "stacks": string(buf[:n])})
					c.writeEvidence()
					os.Exit(1)
				}
			}
		}
	}()
}

// Guard runs f with the slot set.
func Guard(i int, what string, f func()) {
	if TheSlots == nil {
		f()
		return
	}
	TheSlots.Begin(i, what)
	f()
	TheSlots.End(i)
}

// Parallel runs f(worker, item index) over 0..n-1 on all cores.
func Parallel(n int, f func(w, i int)) {
	nw := runtime.NumCPU()
	if nw > NSlots {
		nw = NSlots
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
}

// Pool runs jobs on all cores.
type Pool struct {
	ch chan func(int)
	wg sync.WaitGroup
}

func NewPool() *Pool {
	p := &Pool{ch: make(chan func(int), 1024)}
	for w := 0; w < runtime.NumCPU() && w < NSlots; w++ {
		go func(w int) {
			for f := range p.ch {
				f(w)
				p.wg.Done()
			}
		}(w)
	}
	return p
}

func (p *Pool) Do(f func(w int)) { p.wg.Add(1); p.ch <- f }

// Wait for the jobs given so far.
func (p *Pool) Wait() { p.wg.Wait() }
