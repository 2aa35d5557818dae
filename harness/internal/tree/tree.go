// Package tree interprets the tree marks written by the specification (see Ecma.tla) and compares the
// resulting tree with an ESTree JSON value.  It knows nothing about the language.
package tree

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type Const struct{ Kind, S string }

type Field struct {
	Name string
	Val  interface{} // *Node, []interface{}, Const, nil
}

type Node struct {
	Type   string
	T0, T1 int // first and last token (inclusive)
	O0     int // first token with enclosing parentheses
	Inner  bool // range is the gap between tokens T0 and T1 (template element)
	Any    bool // fields are not compared
	Fields []Field
}

type Tok struct {
	S    string
	NoNL bool // no line break before this token
	NL   bool // a line break is required before this token
	Glue bool // inside a template/JSX text: nothing may be inserted before this token
}

type Prog struct {
	Root *Node
	Toks []Tok
}

type frame struct {
	kind  byte // '[' '{' 'T'
	start int
	vals  []interface{}
	delim []int
}

// Build interprets the written sequence of tokens and marks.
func Build(out []string) (*Prog, error) {
	p := &Prog{}
	var st []*frame
	push := func(v interface{}) error {
		if len(st) == 0 {
			n, ok := v.(*Node)
			if !ok || p.Root != nil {
				return fmt.Errorf("stray value")
			}
			p.Root = n
			return nil
		}
		f := st[len(st)-1]
		f.vals = append(f.vals, v)
		return nil
	}
	noNL, nl, glue := false, false, false
	for _, s := range out {
		switch {
		case s[0] == '\'':
			t := s[1:]
			if t == "NL" {
				nl = true
				continue
			}
			if len(st) > 0 && st[len(st)-1].kind == 'T' {
				st[len(st)-1].delim = append(st[len(st)-1].delim, len(p.Toks))
			}
			p.Toks = append(p.Toks, Tok{t, noNL, nl, glue})
			noNL, nl, glue = false, false, false
		case s == "~":
			noNL = true
		case s == "~~":
			glue = true
		case s == "[":
			st = append(st, &frame{kind: '[', start: len(p.Toks)})
		case s == "{":
			st = append(st, &frame{kind: '{'})
		case s == "T[":
			st = append(st, &frame{kind: 'T', start: len(p.Toks)})
		case s == "_":
			if err := push(nil); err != nil {
				return nil, err
			}
		case s == "D":
			f := st[len(st)-1]
			f.vals = append(f.vals, f.vals[len(f.vals)-1])
		case s == "D<":
			f := st[len(st)-1]
			v := f.vals[len(f.vals)-1].(*Node)
			st = append(st, &frame{kind: '[', start: v.T0, vals: []interface{}{v}})
		case s == "U", s == "U{": // open a node (with a list) that takes over the previous value
			f := st[len(st)-1]
			v := f.vals[len(f.vals)-1].(*Node)
			f.vals = f.vals[:len(f.vals)-1]
			if s == "U" {
				st = append(st, &frame{kind: '[', start: v.O0, vals: []interface{}{v}})
			} else {
				st = append(st, &frame{kind: '[', start: v.O0}, &frame{kind: '{', vals: []interface{}{v}})
			}
		case s == "]PAREN":
			f := st[len(st)-1]
			st = st[:len(st)-1]
			n := *f.vals[0].(*Node)
			n.O0 = f.start
			if err := push(&n); err != nil {
				return nil, err
			}
		case s == "}":
			f := st[len(st)-1]
			if f.kind != '{' {
				return nil, fmt.Errorf("mark } does not match")
			}
			st = st[:len(st)-1]
			l := f.vals
			if l == nil {
				l = []interface{}{}
			}
			if err := push(l); err != nil {
				return nil, err
			}
		case s == "T]":
			f := st[len(st)-1]
			st = st[:len(st)-1]
			n := &Node{Type: "TemplateLiteral", T0: f.start, O0: f.start, T1: len(p.Toks) - 1}
			qs := []interface{}{}
			for i := 0; i+1 < len(f.delim); i += 2 {
				tail := "false"
				if i+2 >= len(f.delim) {
					tail = "true"
				}
				qs = append(qs, &Node{Type: "TemplateElement", T0: f.delim[i], T1: f.delim[i+1], Inner: true,
					Fields: []Field{{"tail", Const{"b", tail}}}})
			}
			es := f.vals
			if es == nil {
				es = []interface{}{}
			}
			n.Fields = []Field{{"quasis", qs}, {"expressions", es}}
			if err := push(n); err != nil {
				return nil, err
			}
		case s[0] == ']':
			f := st[len(st)-1]
			if f.kind != '[' {
				return nil, fmt.Errorf("mark %s does not match", s)
			}
			st = st[:len(st)-1]
			parts := strings.Split(s[1:], "|")
			if strings.HasSuffix(s, "=s:|") { // operator |
				parts = fixBar(s[1:])
			} else if strings.Contains(s, "=s:|") {
				parts = fixBar(s[1:])
			}
			n := &Node{Type: parts[0], T0: f.start, O0: f.start, T1: len(p.Toks) - 1}
			i := 0
			for _, fd := range parts[1:] {
				if fd == "*" {
					n.Any = true
					continue
				}
				if k := strings.Index(fd, "="); k >= 0 {
					v := fd[k+1:]
					n.Fields = append(n.Fields, Field{fd[:k], Const{v[:1], v[2:]}})
					continue
				}
				if i >= len(f.vals) {
					return nil, fmt.Errorf("%s: missing value for %s", s, fd)
				}
				n.Fields = append(n.Fields, Field{fd, f.vals[i]})
				i++
			}
			if i != len(f.vals) {
				return nil, fmt.Errorf("%s: %d values left", s, len(f.vals)-i)
			}
			if err := push(n); err != nil {
				return nil, err
			}
		default:
			return nil, fmt.Errorf("unknown mark %q", s)
		}
	}
	if len(st) != 0 || p.Root == nil {
		return nil, fmt.Errorf("unbalanced marks")
	}
	return p, nil
}

// operators containing '|' confuse the field separator: they are always the last field "operator=s:OP"
func fixBar(s string) []string {
	k := strings.Index(s, "|operator=s:")
	if k < 0 {
		return strings.Split(s, "|")
	}
	return append(strings.Split(s[:k], "|"), s[k+1:])
}

// Key is the token sequence, line breaks included.
func (p *Prog) Key() string {
	var b strings.Builder
	for i, t := range p.Toks {
		if i > 0 {
			b.WriteByte(' ')
		}
		if t.NL {
			b.WriteString("NL ")
		}
		b.WriteString(t.S)
	}
	return b.String()
}

// Rendered program text with token positions
type Layout struct {
	Src        string
	Start, End []int
	lines      []int // byte offset of each line start
	Mode       string
}

var Text = map[string]string{"UNI": "é€", "UNI2": "日本", "OCT": "010", "OCTSTR": `'\01'`}

func text(s string) string {
	if t, ok := Text[s]; ok {
		return t
	}
	return s
}

// Plain renders tokens separated by one space, with the required line breaks.
func (p *Prog) Plain() *Layout {
	l := &Layout{}
	var b strings.Builder
	for i, t := range p.Toks {
		if i > 0 {
			if t.NL {
				b.WriteString(" \n ")
			} else {
				b.WriteByte(' ')
			}
		}
		l.Start = append(l.Start, b.Len())
		b.WriteString(text(t.S))
		l.End = append(l.End, b.Len())
	}
	l.Src = b.String()
	l.index()
	return l
}

var sameLine = []string{" ", "\t", "  ", " /*c*/ ", "/* é */", "\u00a0", "\v", "\f", " /* a /* b */ ", "\u2003"}
var lineBreaks = []string{"\n", "\r\n", "\r", "\n\n", " // x\n", "/* a\n b */", "//é日\r\n  ", "\n\t", "/*\r\n*/ ", "\r\r", "\n/**/\n"}
var tightOK = map[string]bool{"(": true, ")": true, "[": true, "]": true, "{": true, "}": true, ";": true, ",": true}

// Random renders the tokens with random trivia.
func (p *Prog) Random(r *rand.Rand) *Layout {
	l := &Layout{}
	var b strings.Builder
	inTpl := 0
	_ = inTpl
	style := r.Intn(4)
	for i, t := range p.Toks {
		switch {
		case t.Glue:
		case t.NL && i > 0:
			b.WriteString([]string{"", " ", "\t"}[r.Intn(3)])
			b.WriteString(lineBreaks[r.Intn(len(lineBreaks))])
		case i == 0 || t.NoNL || style == 0:
			if i > 0 && (tightOK[t.S] || tightOK[p.Toks[i-1].S]) && r.Intn(2) == 0 {
				break
			}
			if i == 0 && style == 0 {
				break
			}
			b.WriteString(sameLine[r.Intn(len(sameLine))])
		default:
			if (tightOK[t.S] || tightOK[p.Toks[i-1].S]) && r.Intn(3) == 0 {
				break
			}
			for k := 1 + r.Intn(2); k > 0; k-- {
				if r.Intn(2) == 0 {
					b.WriteString(sameLine[r.Intn(len(sameLine))])
				} else {
					b.WriteString(lineBreaks[r.Intn(len(lineBreaks))])
				}
			}
		}
		l.Start = append(l.Start, b.Len())
		b.WriteString(text(t.S))
		l.End = append(l.End, b.Len())
	}
	if style > 1 {
		b.WriteString([]string{"\n", " ", "// e", "\r\n", "/* */"}[r.Intn(5)])
	}
	l.Src = b.String()
	l.index()
	return l
}

func (l *Layout) index() {
	l.lines = []int{0}
	for i := 0; i < len(l.Src); i++ {
		switch l.Src[i] {
		case '\n':
			l.lines = append(l.lines, i+1)
		case '\r':
			if i+1 < len(l.Src) && l.Src[i+1] == '\n' {
				i++
			}
			l.lines = append(l.lines, i+1)
		}
	}
}

func (l *Layout) LineCol(ofs int) (int, int) {
	i := sort.SearchInts(l.lines, ofs+1) - 1
	return i + 1, utf8.RuneCountInString(l.Src[l.lines[i]:ofs])
}

type Cmp struct {
	L         *Layout
	LineCol   bool
	Positions bool
}

var ignorable = map[string]bool{"type": true, "start": true, "end": true, "loc": true, "raw": true, "sourceType": true,
	"directive": true, "exportKind": true, "importKind": true, "range": true}

// Compare returns "" or the first difference.
func (c *Cmp) Compare(root *Node, got interface{}) string {
	return c.node(root, got, "", true)
}

func (c *Cmp) pos(o map[string]interface{}, s, e int, path string) string {
	if gs, ok := o["start"].(float64); !ok || int(gs) != s {
		return fmt.Sprintf("%s.start: expected %d, got %v", path, s, o["start"])
	}
	if ge, ok := o["end"].(float64); !ok || int(ge) != e {
		return fmt.Sprintf("%s.end: expected %d, got %v", path, e, o["end"])
	}
	if c.LineCol {
		loc, _ := o["loc"].(map[string]interface{})
		for k, ofs := range map[string]int{"start": s, "end": e} {
			pp, _ := loc[k].(map[string]interface{})
			ln, col := c.L.LineCol(ofs)
			gl, _ := pp["line"].(float64)
			gc, _ := pp["column"].(float64)
			if int(gl) != ln || int(gc) != col {
				return fmt.Sprintf("%s.loc.%s: expected %d:%d, got %v:%v", path, k, ln, col, pp["line"], pp["column"])
			}
		}
	}
	return ""
}

func (c *Cmp) node(n *Node, got interface{}, path string, root bool) string {
	o, ok := got.(map[string]interface{})
	if !ok {
		return fmt.Sprintf("%s: expected %s, got %s", path, n.Type, brief(got))
	}
	if o["type"] != n.Type {
		return fmt.Sprintf("%s: expected %s, got %v", path, n.Type, o["type"])
	}
	path += "." + n.Type
	if c.Positions {
		var s, e int
		switch {
		case root:
			s, e = 0, len(c.L.Src)
		case n.Inner:
			s, e = c.L.End[n.T0], c.L.Start[n.T1]
		default:
			s, e = c.L.Start[n.T0], c.L.End[n.T1]
		}
		if d := c.pos(o, s, e, path); d != "" {
			return d
		}
		if n.Inner && n.Type == "TemplateElement" {
			raw := strings.ReplaceAll(strings.ReplaceAll(c.L.Src[s:e], "\r\n", "\n"), "\r", "\n")
			v, _ := o["value"].(map[string]interface{})
			// line breaks in the raw text: as written (the repository's tests) or normalised (the standard)
			if (v["raw"] != raw && v["raw"] != c.L.Src[s:e]) || v["cooked"] != raw {
				return fmt.Sprintf("%s.value: expected %q, got %v", path, raw, v)
			}
		}
	}
	if n.Any {
		return ""
	}
	seen := map[string]bool{}
	for _, f := range n.Fields {
		seen[f.Name] = true
		if d := c.val(f.Val, o[f.Name], path+"."+f.Name); d != "" {
			return d
		}
	}
	if n.Type == "TemplateElement" {
		seen["value"] = true
	}
	for k, v := range o {
		if !seen[k] && !ignorable[k] && !empty(v) {
			return fmt.Sprintf("%s.%s: unexpected %s", path, k, brief(v))
		}
	}
	return ""
}

func empty(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case bool:
		return !x
	case string:
		return x == ""
	case []interface{}:
		return len(x) == 0
	}
	return false
}

func (c *Cmp) val(want, got interface{}, path string) string {
	switch w := want.(type) {
	case nil:
		if got != nil {
			return fmt.Sprintf("%s: expected null, got %s", path, brief(got))
		}
	case *Node:
		return c.node(w, got, path, false)
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok && !(got == nil && len(w) == 0) {
			return fmt.Sprintf("%s: expected list, got %s", path, brief(got))
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: expected %d elements, got %d", path, len(w), len(g))
		}
		for i := range w {
			if d := c.val(w[i], g[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case Const:
		switch w.Kind {
		case "s":
			if got != text(w.S) {
				return fmt.Sprintf("%s: expected %q, got %s", path, text(w.S), brief(got))
			}
		case "n":
			f, _ := strconv.ParseFloat(w.S, 64)
			if g, ok := got.(float64); !ok || g != f {
				return fmt.Sprintf("%s: expected %s, got %s", path, w.S, brief(got))
			}
		case "b":
			if g, _ := got.(bool); g != (w.S == "true") {
				return fmt.Sprintf("%s: expected %s, got %s", path, w.S, brief(got))
			}
		case "z":
			if got != nil {
				return fmt.Sprintf("%s: expected null, got %s", path, brief(got))
			}
		}
	}
	return ""
}

func brief(v interface{}) string {
	if m, ok := v.(map[string]interface{}); ok {
		return fmt.Sprintf("%v", m["type"])
	}
	s := fmt.Sprintf("%v", v)
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}
