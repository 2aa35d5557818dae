package main

import "verif/harness/internal/core"

// fragment of the quick tier and, where deeper, of the thorough tier
type tierFrag struct {
	name     string
	q, t     int // letters (quick, thorough)
	kt       int // tokens
	simulate int // >0: number of random derivations instead of enumeration (quick; thorough x10), of kt tokens
	layouts  int
}

func grammarCheck(id string, frs ...tierFrag) {
	checks[id] = func(cc *core.Ctx) {
		c := &checker{cc}
		c.Exhaustive = true
		c.Rule = "every word over each fragment's alphabet up to the length bound; the specification's derivation decides acceptance and tree"
		for _, f := range frs {
			k := f.q
			if c.Thorough {
				k = f.t
			}
			if k > 0 {
				kt := f.kt
				if kt == 0 {
					kt = 40
				}
				c.exhaustive(frag{f.name, k, kt})
			}
			if f.simulate > 0 {
				n := f.simulate
				if c.Thorough {
					n *= 10
				}
				c.simulate(frag{f.name, f.kt, f.kt}, n, f.layouts)
			}
		}
	}
}

func init() {
	grammarCheck("C01",
		tierFrag{name: "ops", q: 5, t: 5},
		tierFrag{name: "chain", q: 4, t: 4},
		tierFrag{name: "unary", q: 5, t: 5},
		tierFrag{name: "cond", q: 5, t: 6},
		tierFrag{name: "paren", q: 5, t: 6},
		tierFrag{name: "logic", q: 6, t: 6},
		tierFrag{name: "seq", q: 6, t: 6},
		tierFrag{name: "aops", q: 4, t: 4},
	)
	grammarCheck("C02",
		tierFrag{name: "mem", q: 6, t: 7},
		tierFrag{name: "mem2", q: 5, t: 5},
		tierFrag{name: "mem3", q: 5, t: 5},
		tierFrag{name: "args", q: 5, t: 6},
		tierFrag{name: "tpl", q: 6, t: 6},
	)
	grammarCheck("C03",
		tierFrag{name: "assign", q: 5, t: 6},
		tierFrag{name: "destr", q: 6, t: 7},
		tierFrag{name: "arrow", q: 6, t: 6},
		tierFrag{name: "pat", q: 5, t: 6},
		tierFrag{name: "vpat", q: 5, t: 5},
		tierFrag{name: "params", q: 5, t: 5},
		tierFrag{name: "forhd2", q: 5, t: 5},
	)
	grammarCheck("C04",
		tierFrag{name: "asi", q: 6, t: 7},
		tierFrag{name: "stmt", q: 6, t: 7},
		tierFrag{name: "asi2", q: 5, t: 6},
		tierFrag{name: "asi3", q: 5, t: 6},
		tierFrag{name: "ifs", q: 5, t: 5},
		tierFrag{name: "loops", q: 6, t: 6},
		tierFrag{name: "sw", q: 5, t: 6},
		tierFrag{name: "sw2", q: 5, t: 6},
		tierFrag{name: "try", q: 6, t: 6},
		tierFrag{name: "ret", q: 5, t: 6},
		tierFrag{name: "vars", q: 5, t: 6},
		tierFrag{name: "forhd", q: 5, t: 5},
		tierFrag{name: "jump", q: 6, t: 6},
		tierFrag{name: "labels", q: 5, t: 5},
	)
	grammarCheck("C05",
		tierFrag{name: "obj", q: 5, t: 6},
		tierFrag{name: "cls", q: 5, t: 6},
		tierFrag{name: "obj2", q: 5, t: 5},
		tierFrag{name: "cls2", q: 5, t: 5},
		tierFrag{name: "clsx", q: 5, t: 5},
		tierFrag{name: "clsp", q: 5, t: 5},
		tierFrag{name: "fn", q: 5, t: 6},
		tierFrag{name: "fnS", q: 5, t: 6},
	)
	grammarCheck("C06",
		tierFrag{name: "imp", q: 5, t: 6},
		tierFrag{name: "imp2", q: 5, t: 6},
		tierFrag{name: "exp", q: 5, t: 6},
		tierFrag{name: "exp2", q: 5, t: 5},
		tierFrag{name: "exp3", q: 3, t: 4},
	)
	grammarCheck("C09",
		tierFrag{name: "redecl", q: 4, t: 4},
		tierFrag{name: "redeclS", q: 3, t: 4},
		tierFrag{name: "redeclM", q: 4, t: 4},
		tierFrag{name: "redecl2", q: 3, t: 4},
		tierFrag{name: "redecl3", q: 3, t: 4},
	)
	grammarCheck("C11",
		tierFrag{name: "jump", q: 6, t: 6},
		tierFrag{name: "labels", q: 5, t: 5},
		tierFrag{name: "ctx", q: 4, t: 5},
		tierFrag{name: "ctxS", q: 4, t: 4},
		tierFrag{name: "modctx", q: 4, t: 4},
		tierFrag{name: "ctx2", q: 3, t: 4},
		tierFrag{name: "ctx3", q: 4, t: 5},
	)
	grammarCheck("C12",
		tierFrag{name: "names1", q: 5, t: 5},
		tierFrag{name: "names1S", q: 5, t: 5},
		tierFrag{name: "names1M", q: 5, t: 5},
		tierFrag{name: "names2", q: 5, t: 5},
		tierFrag{name: "names2S", q: 5, t: 5},
		tierFrag{name: "use", q: 5, t: 5},
		tierFrag{name: "use2", q: 3, t: 4},
	)
}
