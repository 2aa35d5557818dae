package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/harness/internal/core"
)

var checks = map[string]func(*core.Ctx){}

// reruns[id](input) executes one slot input alone (used to attribute a crash)
var reruns = map[string]func(string){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check ID | worker ID SLOTS | rerun ID FILE | list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "check":
		supervise(os.Args[2])
	case "worker":
		debug.SetMaxStack(512 << 20)
		id := os.Args[2]
		s, err := core.OpenSlots(os.Args[3])
		if err != nil {
			core.Fatal("slots: %v", err)
		}
		core.TheSlots = s
		c := core.NewCtx(id)
		c.Watch(40 * time.Second)
		f, ok := checks[id]
		if !ok {
			core.Fatal("no check %s", id)
		}
		f(c)
		c.Finish()
	case "rerun":
		debug.SetMaxStack(512 << 20)
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			core.Fatal("%v", err)
		}
		f := reruns[os.Args[2]]
		if f == nil {
			f = rerunParse
		}
		f(string(b))
	default:
		if f, ok := devCmds[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		core.Fatal("unknown command %s", os.Args[1])
	}
}

var devCmds = map[string]func([]string){}

// supervise runs the check in a child process.  If the child dies from a Go runtime crash, the inputs it
// was working on are run again one by one, each alone; an input that crashes again is a violation,
// otherwise the check ends with an error.
func supervise(id string) {
	dir, err := os.MkdirTemp("", "verif-")
	if err != nil {
		core.Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	slots := filepath.Join(dir, "slots")
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", id, slots)
	var errb bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(os.Stderr, &capped{b: &errb})
	err = cmd.Run()
	code := 0
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		} else {
			os.RemoveAll(dir)
			core.Fatal("%v", err)
		}
	}
	if code == 0 || code == 1 || code == 3 {
		os.RemoveAll(dir)
		os.Exit(code)
	}
	// crashed
	s, err := core.OpenSlots(slots)
	if err != nil {
		core.Fatal("%v", err)
	}
	c := core.NewCtx(id)
	found := false
	for i := 0; i < core.NSlots; i++ {
		in := s.Get(i)
		if in == "" {
			continue
		}
		f := filepath.Join(dir, "in")
		os.WriteFile(f, []byte(in), 0o644)
		rc := exec.Command(self, "rerun", id, f)
		var o bytes.Buffer
		rc.Stdout, rc.Stderr = &capped{b: &o}, &capped{b: &o}
		if err := rc.Start(); err != nil {
			continue
		}
		done := make(chan error, 1)
		go func() { done <- rc.Wait() }()
		select {
		case err = <-done:
		case <-time.After(60 * time.Second):
			rc.Process.Kill()
			<-done
			err = fmt.Errorf("no result within 60 s")
		}
		if err != nil {
			found = true
			t := o.String()
			if len(t) > 2000 {
				t = t[:2000]
			}
			c.Violation("crash: "+in, map[string]interface{}{"input": in, "what": "the process crashes: " + err.Error(), "stderr": t})
		}
	}
	os.RemoveAll(dir)
	if found {
		c.Finish()
	}
	core.Fatal("the check's process ended with %d and no input reproduces it", code)
}

type capped struct{ b *bytes.Buffer }

func (c *capped) Write(p []byte) (int, error) {
	if c.b.Len() < 1<<16 {
		c.b.Write(p)
	}
	return len(p), nil
}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
