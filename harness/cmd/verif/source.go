package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/hsiaosiyuan0/mole/span"

	"verif/harness/internal/core"
	"verif/harness/internal/tlc"
)

var srcText = map[byte]string{'a': "a", 's': " ", 't': "\t", 'n': "\n", 'r': "\r", 'l': "\u2028", 'b': "\u00a0", 'e': "\u0085",
	'd': "é", 'o': "😀", 'f': "\ufffd", 'm': "\ufeff", 'x': "\xbf", 'z': "z"}

func srcSpell(w string) string {
	var sb strings.Builder
	for i := 0; i < len(w); i++ {
		sb.WriteString(srcText[w[i]])
	}
	return sb.String()
}

// is r the character named n
func srcIs(n byte, r rune) bool {
	if n == '$' {
		return r == span.EOF
	}
	if n == 'x' {
		return r == utf8.RuneError
	}
	return string(r) == srcText[n]
}

func srcRune(n byte) rune { r, _ := utf8.DecodeRuneInString(srcText[n]); return r }

func srcReplay(word, hist string) (bad string) {
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("panic: %v", e)
		}
	}()
	code := srcSpell(word)
	s := span.NewSource("f", code)
	for k, st := range strings.Split(hist, " ") {
		op, rest, _ := strings.Cut(st, "=")
		res, seen, _ := strings.Cut(rest, "|")
		switch op[0] {
		case 'R':
			if r := s.Read(); !srcIs(res[0], r) {
				return fmt.Sprintf("step %d: Read gives %q, expected %s", k+1, r, res)
			}
		case 'I':
			if g := s.AdvanceIf(srcRune(op[1])); g != (res == "T") {
				return fmt.Sprintf("step %d: AdvanceIf(%q) gives %v", k+1, srcRune(op[1]), g)
			}
		case 'S':
			if s.SkipSpace() != s {
				return "SkipSpace gives another source"
			}
		case 'P':
			s.PushState()
		case 'Q':
			s.PopState()
		case 'D':
			s.DiscardState()
		}
		var ofst, pos, line, col int
		c1, c2 := seen[0], seen[1]
		m := strings.IndexAny(seen[2:], "TF")
		fmt.Sscanf(seen[2:2+m], "%d.%d.", &ofst, &pos)
		met := seen[2+m] == 'T'
		fmt.Sscanf(seen[2+m+1:], "%d.%d", &line, &col)
		at := fmt.Sprintf("step %d (%s): ", k+1, op)
		switch {
		case int(s.Ofst()) != ofst:
			return at + fmt.Sprintf("Ofst is %d, expected %d", s.Ofst(), ofst)
		case int(s.Pos()) != pos:
			return at + fmt.Sprintf("Pos is %d, expected %d", s.Pos(), pos)
		case s.MetLineTerm() != met:
			return at + fmt.Sprintf("MetLineTerm is %v", s.MetLineTerm())
		case !srcIs(c1, s.Peek()):
			return at + fmt.Sprintf("Peek is %q, expected %c", s.Peek(), c1)
		case !srcIs(c2, s.Ahead2nd()):
			return at + fmt.Sprintf("Ahead2nd is %q, expected %c", s.Ahead2nd(), c2)
		case s.AheadIsEOF() != (c1 == '$'):
			return at + fmt.Sprintf("AheadIsEOF is %v", s.AheadIsEOF())
		case s.Len() != len(code) || s.Text(0, s.Ofst()) != code[:ofst]:
			return at + "Text or Len differ"
		case s.NewOpenRange() != span.Range{Lo: uint32(ofst), Hi: uint32(ofst)}:
			return at + "NewOpenRange differs"
		}
		if g := s.OfstLineCol(s.Ofst()); int(g.Line) != line || int(g.Col) != col {
			return at + fmt.Sprintf("OfstLineCol is %v, expected %d:%d", g, line, col)
		}
		if c1 != '$' {
			r1 := srcRune(c1)
			if !s.AheadIsCh(r1) || s.AheadIsCh('q') || !s.AheadIsChOr(r1, 'q') || !s.AheadIsChOr('q', r1) || s.AheadIsChOr('q', 'Q') {
				return at + "AheadIsCh or AheadIsChOr differ"
			}
			if c2 != '$' {
				r2 := srcRune(c2)
				if !s.AheadIsChs2(r1, r2) || s.AheadIsChs2(r1, 'q') || s.AheadIsChs2('q', r2) {
					return at + "AheadIsChs2 differs"
				}
			} else if s.AheadIsChs2(r1, 'q') || s.AheadIsChs2(r1, r1) {
				return at + "AheadIsChs2 differs at the end"
			}
		}
	}
	return ""
}

func srcLines(word, want string) (bad string) {
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("panic: %v", e)
		}
	}()
	s := span.NewSource("f", srcSpell(word))
	type lc struct{ o, l, c int }
	var ps []lc
	for _, p := range strings.Split(want, " ") {
		var x lc
		fmt.Sscanf(p, "%d.%d.%d", &x.o, &x.l, &x.c)
		ps = append(ps, x)
	}
	eq := func(p span.Pos, x lc) bool { return int(p.Line) == x.l && int(p.Col) == x.c }
	for i, a := range ps {
		if g := s.OfstLineCol(uint32(a.o)); !eq(g, a) {
			return fmt.Sprintf("OfstLineCol(%d) is %v, expected %d:%d", a.o, g, a.l, a.c)
		}
		for _, b := range ps[i:] {
			f, t := s.LineCol(span.Range{Lo: uint32(a.o), Hi: uint32(b.o)})
			if !eq(f, a) || !eq(t, b) {
				return fmt.Sprintf("LineCol(%d,%d) is %v %v, expected %d:%d %d:%d", a.o, b.o, f, t, a.l, a.c, b.l, b.c)
			}
			if s.RngText(span.Range{Lo: uint32(a.o), Hi: uint32(b.o)}) != srcSpell(word)[a.o:b.o] {
				return "RngText differs"
			}
		}
	}
	return ""
}

func srcCheck(c *core.Ctx) {
	c.Exhaustive = true
	c.Rule = "every text and every history of reader operations up to the bounds, then random longer ones; every observation is compared after every step"
	type conf struct {
		letters, ifs string
		nt, no, sim  int
		pos          bool
	}
	all := "asntrlbedofmx"
	confs := []conf{
		{"anrldx", "an", 2, 4, 0, false},
		{"asnrlx", "r", 3, 3, 0, false},
		{all, "", 4, 0, 0, true},
		{"anro", "", 6, 0, 0, true},
		{all, "asntrldofmxz", 14, 30, 4000, false},
		{all, "", 40, 0, 1000, true},
	}
	if c.Thorough {
		confs = []conf{
			{"anrldx", "an", 3, 4, 0, false},
			{"asnrlx", "r", 3, 4, 0, false},
			{"nrs", "", 4, 5, 0, false},
			{all, "", 4, 0, 0, true},
			{"anro", "", 8, 0, 0, true},
			{all, "asntrldofmxz", 20, 40, 40000, false},
			{all, "", 60, 0, 10000, true},
		}
	}
	set := func(s string) string {
		var r []string
		for _, x := range s {
			r = append(r, fmt.Sprintf("\"%c\"", x))
		}
		return "{" + strings.Join(r, ",") + "}"
	}
	for _, cf := range confs {
		inv, spec, no := "INVARIANT Emit\n", "Spec", cf.no
		var args []string
		workers := 1
		if cf.pos {
			inv = "INVARIANT EmitPos\n"
		}
		if cf.sim > 0 {
			spec = "SpecR"
			args = []string{"-simulate", fmt.Sprintf("num=%d", cf.sim), "-depth", fmt.Sprint(no + 3), "-seed", fmt.Sprint(c.Seed)}
		}
		var n int64
		res, err := (&tlc.Run{SpecDir: specDir(), Module: "Source", Workers: workers, Args: args,
			Consts:   map[string]string{"Letters": set(cf.letters), "Ifs": set(cf.ifs), "NT": fmt.Sprint(cf.nt), "NO": fmt.Sprint(no)},
			CfgExtra: "SPECIFICATION " + spec + "\nINVARIANT InText\nINVARIANT NotInside\n" + inv + "CHECK_DEADLOCK FALSE\n",
			OnPrint: func(tag string, a []string) {
				w := a[0][1:]
				n++
				if c.Enough() {
					return
				}
				core.Guard(0, srcSpell(w), func() {
					if tag == "H" {
						if bad := srcReplay(w, a[1]); bad != "" {
							c.Violation(fmt.Sprintf("text %q: %s", srcSpell(w), a[1]), map[string]interface{}{"source": fmt.Sprintf("%q", srcSpell(w)), "history": a[1], "what": bad})
						}
					} else if bad := srcLines(w, a[1]); bad != "" {
						c.Violation(fmt.Sprintf("lines of %q", srcSpell(w)), map[string]interface{}{"source": fmt.Sprintf("%q", srcSpell(w)), "what": bad})
					}
				})
			}}).Exec()
		if err != nil {
			core.Fatal("Source: %v", err)
		}
		c.States += res.Distinct
		c.Transitions += res.Generated
		if n == 0 {
			core.Fatal("Source: nothing to replay")
		}
		c.Logf("letters %s text %d history %d: %d replayed", cf.letters, cf.nt, no, n)
		c.Traces += n
		c.Evaluations += n
		c.Distinct += n
	}
}

func init() { checks["C24"] = srcCheck }
