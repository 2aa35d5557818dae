// Package tlc runs TLC on the specifications of /verif/spec and streams what they print.
package tlc

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

type Run struct {
	SpecDir  string
	Module   string            // root module
	Consts   map[string]string // constant assignments (TLA+ expressions)
	CfgExtra string            // further cfg lines (SPECIFICATION, INVARIANT ...)
	Args     []string          // further TLC arguments (-simulate ...)
	Workers  int
	Xmx      string
	Timeout  time.Duration
	Files    map[string]string // extra files placed next to the spec
	// OnPrint is called for every value printed with PrintT(<<"TAG", ...strings>>): tag and the strings.
	OnPrint func(tag string, args []string)
	// AllowStop: TLC being stopped by us (ctx) is fine
	Stop <-chan struct{}
	// ExpectViolation: exit codes 10..13 are a legitimate outcome
	AllowViolation bool
}

type Result struct {
	Generated, Distinct int64
	Traces              int64
	Depth               int64
	Violated            bool
	Log                 string // non-vector output
	Wall                time.Duration
}

var (
	reStates = regexp.MustCompile(`(\d+) states generated, (\d+) distinct states found`)
	reSim    = regexp.MustCompile(`The number of states generated: (\d+)`)
	reProg   = regexp.MustCompile(`Progress: (\d+) states checked, (\d+) traces`)
	reDepth  = regexp.MustCompile(`depth of the complete state graph search is (\d+)`)
)

func (r *Run) Exec() (*Result, error) {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-tlc-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	ms, _ := filepath.Glob(filepath.Join(r.SpecDir, "*.tla"))
	for _, f := range ms {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(dir, filepath.Base(f)), b, 0o644); err != nil {
			return nil, err
		}
	}
	for n, c := range r.Files {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(c), 0o644); err != nil {
			return nil, err
		}
	}
	var cfg strings.Builder
	if len(r.Consts) > 0 {
		cfg.WriteString("CONSTANTS\n")
		for k, v := range r.Consts {
			fmt.Fprintf(&cfg, "  %s = %s\n", k, v)
		}
	}
	cfg.WriteString(r.CfgExtra)
	if err := os.WriteFile(filepath.Join(dir, "M.cfg"), []byte(cfg.String()), 0o644); err != nil {
		return nil, err
	}
	xmx := r.Xmx
	if xmx == "" {
		xmx = "6g"
	}
	w := r.Workers
	if w == 0 {
		w = 8
	}
	to := r.Timeout
	if to == 0 {
		to = 10 * time.Minute
	}
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	args := []string{"-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx, "-Djava.io.tmpdir=" + dir,
		"-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
		"tlc2.TLC", "-config", "M.cfg", "-workers", strconv.Itoa(w), "-metadir", filepath.Join(dir, "md"), "-noGenerateSpecTE"}
	args = append(args, r.Args...)
	args = append(args, r.Module+".tla")
	cmd := exec.CommandContext(ctx, "java", args...)
	cmd.Dir = dir
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.Stdout, cmd.Stderr = pw, pw
	if err := cmd.Start(); err != nil {
		pw.Close()
		pr.Close()
		return nil, err
	}
	pw.Close()
	stopped := false
	if r.Stop != nil {
		go func() {
			select {
			case <-r.Stop:
				stopped = true
				cancel()
			case <-ctx.Done():
			}
		}()
	}
	res := &Result{}
	var log strings.Builder
	rd := bufio.NewReaderSize(pr, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		if line != "" {
			l := strings.TrimRight(line, "\r\n")
			if strings.HasPrefix(l, `<< "`) && r.OnPrint != nil { // a wrapped tuple
				for err == nil && !strings.HasSuffix(l, " >>") {
					line, err = rd.ReadString('\n')
					l += " " + strings.TrimSpace(line)
				}
				l = "<<" + strings.TrimSuffix(strings.TrimPrefix(l, "<< "), " >>") + ">>"
				if parts, ok := ParseTuple(l); ok && len(parts) > 0 {
					r.OnPrint(parts[0], parts[1:])
					continue
				}
				return nil, fmt.Errorf("cannot read TLC output %q", l)
			}
			if strings.HasPrefix(l, `<<"`) && strings.HasSuffix(l, `>>`) && r.OnPrint != nil {
				if parts, ok := ParseTuple(l); ok && len(parts) > 0 {
					r.OnPrint(parts[0], parts[1:])
					continue
				}
			}
			if m := reStates.FindStringSubmatch(l); m != nil {
				res.Generated, _ = strconv.ParseInt(m[1], 10, 64)
				res.Distinct, _ = strconv.ParseInt(m[2], 10, 64)
			}
			if m := reSim.FindStringSubmatch(l); m != nil {
				res.Generated, _ = strconv.ParseInt(m[1], 10, 64)
			}
			if m := reProg.FindStringSubmatch(l); m != nil {
				res.Traces, _ = strconv.ParseInt(m[2], 10, 64)
			}
			if m := reDepth.FindStringSubmatch(l); m != nil {
				res.Depth, _ = strconv.ParseInt(m[1], 10, 64)
			}
			if log.Len() < 1<<20 {
				log.WriteString(l)
				log.WriteByte('\n')
			}
		}
		if err != nil {
			if err != io.EOF {
				return nil, err
			}
			break
		}
	}
	pr.Close()
	err = cmd.Wait()
	res.Wall = time.Since(start)
	res.Log = log.String()
	if err != nil && !stopped {
		if ee, ok := err.(*exec.ExitError); ok {
			c := ee.ExitCode()
			if c >= 10 && c <= 14 && r.AllowViolation {
				res.Violated = true
				return res, nil
			}
		}
		if ctx.Err() != nil {
			err = fmt.Errorf("timeout after %v", to)
		}
		t := res.Log
		if len(t) > 4000 {
			t = t[len(t)-4000:]
		}
		return nil, fmt.Errorf("TLC failed: %v\n%s", err, t)
	}
	return res, nil
}

// ParseTuple parses a printed TLA+ tuple of strings/ints `<<"a", "b\"c", 3>>`.
func ParseTuple(s string) ([]string, bool) {
	if !strings.HasPrefix(s, "<<") || !strings.HasSuffix(s, ">>") {
		return nil, false
	}
	v, rest, ok := parseSeq(s)
	if !ok || rest != "" {
		return nil, false
	}
	return v, true
}

func parseSeq(s string) ([]string, string, bool) {
	s = s[2:]
	var out []string
	for {
		s = strings.TrimLeft(s, " ")
		if strings.HasPrefix(s, ">>") {
			return out, s[2:], true
		}
		if len(s) == 0 {
			return nil, "", false
		}
		if s[0] == ',' {
			s = s[1:]
			continue
		}
		if s[0] == '"' {
			str, rest, ok := parseStr(s)
			if !ok {
				return nil, "", false
			}
			out = append(out, str)
			s = rest
			continue
		}
		i := strings.IndexAny(s, ",>")
		if i <= 0 {
			return nil, "", false
		}
		out = append(out, strings.TrimSpace(s[:i]))
		s = s[i:]
	}
}

func parseStr(s string) (string, string, bool) {
	var b strings.Builder
	for i := 1; i < len(s); i++ {
		c := s[i]
		if c == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			case 'r':
				b.WriteByte('\r')
			case 'f':
				b.WriteByte('\f')
			default:
				b.WriteByte(s[i])
			}
			continue
		}
		if c == '"' {
			return b.String(), s[i+1:], true
		}
		b.WriteByte(c)
	}
	return "", "", false
}

// ParseSetOfTuples parses `{<<"a">>, <<"(", ")">>}`.
func ParseSetOfTuples(s string) ([][]string, error) {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
		return nil, fmt.Errorf("not a set: %s", s)
	}
	s = s[1 : len(s)-1]
	var out [][]string
	for {
		s = strings.TrimLeft(s, ", ")
		if s == "" {
			return out, nil
		}
		v, rest, ok := parseSeq(s)
		if !ok {
			return nil, fmt.Errorf("bad tuple: %s", s)
		}
		out = append(out, v)
		s = rest
	}
}
