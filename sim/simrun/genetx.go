package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif.local/sim/simrt"
)

func init() {
	generators["E01"] = genE01
	generators["E02"] = genE02
	generators["E03"] = genE03
	generators["E04"] = genE04
	generators["E05"] = genE05
	generators["E06"] = genE06
	generators["E07"] = genE07
	generators["E08"] = genE08
	generators["E09"] = genE09
}

type etxGen struct {
	p   *Plan
	r   *simrt.Rand
	seq int
}

func newEtxGen(p *Plan, r *simrt.Rand) *etxGen {
	p.Engine = "etx"
	p.Sched.Budget = 150_000_000
	switch p.Sched.Policy {
	case simrt.PolicyPCT:
		p.Sched.Horizon = 1 << (8 + r.Intn(11))
	default:
		p.Sched.Gap = 50 << r.Intn(11)
	}
	return &etxGen{p: p, r: r, seq: r.Intn(50)}
}

func (g *etxGen) op(t int, k string, a, b, c int, s string) {
	g.p.Ops = append(g.p.Ops, Op{T: t, K: k, A: a, B: b, C: c, S: s})
}

// doc adds a document and returns its number.
func (g *etxGen) doc(kind string) int {
	r := g.r
	var d Doc
	if r.Intn(30) == 0 && (kind == "small" || kind == "sized" || kind == "full") {
		kind = "vast"
	}
	switch kind {
	case "vast":
		most := 4100
		switch g.p.Prop {
		case "E04", "E05", "E06": // in which every part is looked at
			most = 1300
		}
		d = vastDoc(r, &g.seq, most)
	case "small":
		d = validDoc(r, &g.seq, smallSpec(r))
	case "sized":
		d = validDoc(r, &g.seq, sizedSpec(r))
	case "full":
		d = validDoc(r, &g.seq, docSpec{items: 3 + r.Intn(5), depth: 2 + r.Intn(4), width: 2 + r.Intn(4)})
		if r.Intn(25) == 0 {
			d = validDoc(r, &g.seq, docSpec{items: 2 + r.Intn(60), depth: 2, width: 2, wide: 20 << r.Intn(3)})
		}
	case "line":
		// One line as long as a buffer, or a little longer or shorter.
		v := validDoc(r, &g.seq, docSpec{items: 1 + r.Intn(2), depth: 1, width: 2})
		b := v.data()
		n := 1<<uint(9+r.Intn(8)) + r.Intn(9) - 4
		if r.Intn(4) == 0 {
			n += r.Intn(n)
		}
		line := []byte("// " + strings.Repeat([]string{"x", "é", "y "}[r.Intn(3)], n)[:n] + "\n")
		huge := r.Intn(20) == 0
		if huge { // what follows is beyond bounds people choose
			n = []int{1_000_000, 1 << 20, 1 << 20, 2 << 20}[r.Intn(4)]
			if r.Intn(6) == 0 {
				n = []int{4 << 20, 10_000_000, 16 << 20}[r.Intn(3)]
			}
			n -= len(b) / 2
			line = append(bytes.Repeat([]byte("/"), n), '\n')
		}
		if huge || r.Intn(2) == 0 {
			d = newDoc(append(line, b...))
		} else {
			d = newDoc(append(append(b, '\n'), line...))
		}
	case "broken":
		d = brokenDoc(r, &g.seq)
	case "repeat":
		d = repeatDoc(r, &g.seq)
	case "deep":
		d = deepDoc(r, &g.seq, 1+r.Intn(60))
	case "nested":
		d = deepDoc(r, &g.seq, 1+r.Intn(25))
	case "damaged":
		v := validDoc(r, &g.seq, sizedSpec(r))
		b := v.data()
		var others [][]byte
		for i := range g.p.Docs {
			others = append(others, g.p.Docs[i].data())
		}
		for n := 1 + r.Intn(2); n > 0; n-- {
			var what string
			b, what = damage(r, b, others)
			_ = what
		}
		d = newDoc(b)
	case "twin":
		if len(g.p.Docs) == 0 {
			return g.doc("sized")
		}
		d = newDoc(twin(r, g.p.Docs[r.Intn(len(g.p.Docs))].data()))
	default: // any
		if len(g.p.Docs) > 0 && r.Intn(7) == 0 {
			return g.doc("twin")
		}
		switch x := r.Intn(10); {
		case x < 5:
			return g.doc("small")
		case x < 6:
			return g.doc("sized")
		case x < 8:
			return g.doc("broken")
		case x < 9:
			return g.doc("damaged")
		default:
			if r.Intn(3) == 0 {
				return g.doc("repeat")
			}
			return g.doc("deep")
		}
	}
	g.p.Docs = append(g.p.Docs, d)
	return len(g.p.Docs) - 1
}

// crowd is the number of threads of a run in which there are more than usual,
// or the given number.
func (g *etxGen) crowd(usual int) int {
	if g.r.Intn(25) > 0 {
		return usual
	}
	return 6 + g.r.Intn(6<<g.r.Intn(3))
}

// stream describes a reader that does not fail.
func (g *etxGen) stream() string {
	k := readerKinds[0]
	if g.r.Intn(3) > 0 {
		k = readerKinds[g.r.Intn(len(readerKinds))]
	}
	return fmt.Sprintf("r:%s:%d::", k, g.r.Intn(1<<20))
}

// failing describes a reader that fails at some byte of the document.
func (g *etxGen) failing(doc int) string {
	k := readerKinds[0]
	if g.r.Intn(2) > 0 {
		k = readerKinds[g.r.Intn(len(readerKinds))]
	}
	b := g.p.Docs[doc].data()
	at := 0
	switch g.r.Intn(6) {
	case 0:
	case 1:
		at = len(b)
	case 2:
		if len(b) > 0 {
			at = g.r.Intn(len(b) + 1)
		}
	case 3:
		at = 512 * (1 + g.r.Intn(4))
	default:
		// What arrived so far ends with a line: often a complete document.
		at = g.r.Intn(len(b) + 1)
		if i := bytes.IndexByte(b[at:], '\n'); i >= 0 {
			at += i + 1
		}
	}
	if at > len(b) {
		at = len(b)
	}
	f := "err"
	switch g.r.Intn(8) {
	case 0:
		f = "panic"
	case 1, 2:
		f = "once" // whoever asks again gets the rest
	}
	return fmt.Sprintf("r:%s:%d:%s:%d", k, g.r.Intn(1<<20), f, at)
}

// way is any way of parsing that does not fail.
func (g *etxGen) way() string {
	switch g.r.Intn(5) {
	case 0:
		return "str"
	case 1:
		return "byt"
	case 2:
		return "shb"
	}
	return g.stream()
}

func genE01(p *Plan, r *simrt.Rand) {
	g := newEtxGen(p, r)
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch x := r.Intn(12); {
		case x < 4:
			g.doc("sized")
		case x < 5:
			g.doc("line")
		default:
			g.doc("any")
		}
	}
	nt := 1
	if r.Intn(3) == 0 {
		nt = 2
	}
	for t := 0; t < nt; t++ {
		for n := 2 + r.Intn(4); n > 0; n-- {
			w := g.stream()
			if r.Intn(12) == 0 {
				w = "byt"
			}
			g.op(t, "p", r.Intn(len(p.Docs)), r.Intn(etxRegs), r.Intn(2), w)
		}
	}
}

func genE02(p *Plan, r *simrt.Rand) {
	g := newEtxGen(p, r)
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch r.Intn(4) {
		case 0:
			g.doc("sized")
		case 1:
			g.doc("any")
		default:
			g.doc("small")
		}
	}
	nt := 1
	if r.Intn(3) == 0 {
		nt = 2
	}
	for t := 0; t < nt; t++ {
		for n := 2 + r.Intn(5); n > 0; n-- {
			d := r.Intn(len(p.Docs))
			w := g.failing(d)
			if r.Intn(3) == 0 {
				w = g.way()
			}
			g.op(t, "p", d, r.Intn(etxRegs), r.Intn(2), w)
		}
		if r.Intn(2) == 0 {
			g.op(t, "p", r.Intn(len(p.Docs)), 0, 0, g.way())
		}
	}
}

func genE03(p *Plan, r *simrt.Rand) {
	g := newEtxGen(p, r)
	for n := 1 + r.Intn(3); n > 0; n-- {
		if r.Intn(8) == 0 {
			g.doc("full")
		} else {
			g.doc("any")
		}
	}
	nt := g.crowd(2 + r.Intn(4))
	for t := 0; t < nt; t++ {
		for n := 1 + r.Intn(3); n > 0; n-- {
			if nt > 5 && n > 1 && r.Intn(3) > 0 {
				continue
			}
			d := r.Intn(len(p.Docs))
			w := g.way()
			if r.Intn(5) == 0 {
				w = g.failing(d)
			}
			g.op(t, "p", d, r.Intn(etxRegs), r.Intn(2), w)
		}
	}
}

func genE04(p *Plan, r *simrt.Rand) {
	g := newEtxGen(p, r)
	for n := 1 + r.Intn(3); n > 0; n-- {
		if r.Intn(3) == 0 {
			g.doc("full")
		} else {
			g.doc([]string{"small", "small", "small", "small", "small", "nested"}[r.Intn(6)])
		}
	}
	nt := g.crowd(1 + r.Intn(3))
	for i := r.Intn(3); i > 0; i-- {
		// Trees handed to one thread each.
		p.Cfg[fmt.Sprintf("own%d", i-1)] = 1 + r.Intn(nt)
		g.op(-1, "p", r.Intn(len(p.Docs)), sharedReg, r.Intn(2), g.way())
	}
	for t := 0; t < nt; t++ {
		for n := 3 + r.Intn(6); n > 0; n-- {
			a := r.Intn(etxRegs)
			if r.Intn(4) == 0 {
				a = sharedReg + r.Intn(3)
			}
			switch x := r.Intn(10); {
			case x < 4:
				g.op(t, "p", r.Intn(len(p.Docs)), r.Intn(etxRegs), r.Intn(2), g.way())
			case x < 7:
				g.op(t, "ed", a, r.Intn(64), 0, "")
			case x < 8:
				g.op(t, "ov", 0, 0, 0, "")
			case x < 9:
				g.op(t, "ln", a, r.Intn(4), 0, "")
			default:
				g.op(t, "ck", a, 0, 0, "")
			}
		}
	}
}

func genE05(p *Plan, r *simrt.Rand) {
	g := newEtxGen(p, r)
	for n := 1 + r.Intn(2); n > 0; n-- {
		if r.Intn(3) > 0 {
			g.doc("full")
		} else {
			g.doc([]string{"small", "small", "small", "small", "small", "nested"}[r.Intn(6)])
		}
	}
	nt := g.crowd(1 + r.Intn(3))
	ns := 1 + r.Intn(2)
	made := 0
	for i := 0; i < ns; i++ {
		way := "str"
		if r.Intn(4) == 0 {
			way = g.stream()
		}
		g.op(-1, "p", r.Intn(len(p.Docs)), sharedReg+made, 0, way)
		if r.Intn(3) == 0 {
			p.Cfg[fmt.Sprintf("own%d", made)] = 1 + r.Intn(nt)
		}
		made++
	}
	if r.Intn(4) == 0 {
		g.op(-1, "lm", sharedReg+r.Intn(ns), sharedReg, 0, "")
		made++
	}
	for n := r.Intn(4); n > 0; n-- {
		// Clones made early, for a thread of their own or for everybody.
		c := 0
		if r.Intn(2) == 0 {
			c = r.Intn(60)
		}
		g.op(-1, "cl", sharedReg+r.Intn(made), sharedReg, c, "")
		if r.Intn(3) > 0 {
			p.Cfg[fmt.Sprintf("own%d", made)] = 1 + r.Intn(nt)
		}
		made++
	}
	if r.Intn(3) == 0 {
		g.op(-1, "ca", sharedReg+r.Intn(made), 0, 0, "")
	}
	for t := 0; t < nt; t++ {
		for n := 3 + r.Intn(7); n > 0; n-- {
			a := r.Intn(etxRegs)
			if r.Intn(2) == 0 {
				a = sharedReg + r.Intn(made)
			}
			c := 0
			if r.Intn(2) == 0 {
				c = r.Intn(80)
			}
			switch x := r.Intn(12); {
			case x < 4:
				g.op(t, "cl", a, r.Intn(etxRegs), c, "")
			case x < 7:
				g.op(t, "ed", a, r.Intn(64), 0, "")
			case x < 8:
				g.op(t, "ln", a, r.Intn(4), 0, "")
			case x < 9:
				g.op(t, "fs", a, 0, c, "")
			case x < 10:
				g.op(t, "ch", a, r.Intn(2), c, "")
			case x < 11:
				g.op(t, "ck", a, 0, 0, "")
			default:
				g.op(t, "lm", a, r.Intn(etxRegs), 0, "")
			}
		}
	}
}

func genE06(p *Plan, r *simrt.Rand) {
	g := newEtxGen(p, r)
	for n := 1 + r.Intn(2); n > 0; n-- {
		if r.Intn(3) > 0 {
			g.doc("full")
		} else {
			g.doc([]string{"small", "small", "small", "small", "small", "nested"}[r.Intn(6)])
		}
	}
	made := 0
	for n := 1 + r.Intn(2); n > 0; n-- {
		g.op(-1, "p", r.Intn(len(p.Docs)), sharedReg, 0, "str")
		made++
	}
	if r.Intn(3) == 0 {
		g.op(-1, "cl", sharedReg+r.Intn(made), sharedReg, r.Intn(2)*r.Intn(60), "")
		made++
	}
	if r.Intn(3) == 0 {
		g.op(-1, "lm", sharedReg+r.Intn(made), sharedReg, 0, "")
		made++
	}
	if r.Intn(12) == 0 {
		p.Cfg["alone"] = 1
	}
	if r.Intn(2) == 0 {
		// The trees are read, changed and read again before they are shared.
		for n := 1 + r.Intn(4); n > 0; n-- {
			a := sharedReg + r.Intn(made)
			if r.Intn(3) > 0 {
				g.op(-1, "fs", a, 0, 0, "")
			}
			switch r.Intn(6) {
			case 0:
				g.op(-1, "ra", a, 0, r.Intn(2)*r.Intn(120), "")
			case 1:
				g.op(-1, "ch", a, r.Intn(2), r.Intn(120), "")
			case 2:
				g.op(-1, "ln", a, r.Intn(4), 0, "")
			default:
				g.op(-1, "ed", a, 1+2*r.Intn(32), 0, "")
			}
			if r.Intn(3) > 0 {
				g.op(-1, "fs", a, 0, 0, "")
			}
		}
	}
	nt := g.crowd(2 + r.Intn(3))
	edits := r.Intn(4) == 0
	for t := 0; t < nt; t++ {
		for n := 2 + r.Intn(8); n > 0; n-- {
			a := sharedReg + r.Intn(made)
			if r.Intn(12) == 0 {
				a = r.Intn(etxRegs)
			}
			if edits && r.Intn(3) == 0 {
				// A thread changes its own clones between readings.
				a = r.Intn(etxRegs)
				switch r.Intn(4) {
				case 0, 1:
					g.op(t, "ed", a, 1+2*r.Intn(32), 0, "")
					continue
				case 2:
					g.op(t, "ra", a, 0, r.Intn(120), "")
				}
			}
			c := 0
			if r.Intn(3) > 0 {
				c = r.Intn(120)
			}
			switch x := r.Intn(10); {
			case x < 4:
				g.op(t, "fs", a, 0, c, "")
			case x < 7:
				g.op(t, "ch", a, r.Intn(2), c, "")
			default:
				g.op(t, "cl", a, r.Intn(etxRegs), c, "")
			}
		}
	}
}

func genE07(p *Plan, r *simrt.Rand) {
	g := newEtxGen(p, r)
	good := g.doc("small")
	for n := 2 + r.Intn(5); n > 0; n-- {
		var d int
		switch x := r.Intn(20); {
		case x < 2:
			d = g.doc([]string{"broken", "repeat", "repeat", "twin"}[r.Intn(4)])
		case x < 3:
			n := 1 + r.Intn(200)
			if r.Intn(8) == 0 {
				n = 200 + r.Intn(1400)
			}
			g.p.Docs = append(g.p.Docs, deepDoc(r, &g.seq, n))
			d = len(g.p.Docs) - 1
		case x < 4:
			// Noise.
			b := make([]byte, r.Intn(200))
			for i := range b {
				b[i] = byte(r.Intn(256))
			}
			if r.Intn(2) == 0 {
				const t = "a1 =\n\"'${}%[]()<>-_./*#,:?!&|^~+\\\r\t"
				for i := range b {
					b[i] = t[r.Intn(len(t))]
				}
			}
			g.p.Docs = append(g.p.Docs, newDoc(b))
			d = len(g.p.Docs) - 1
		default:
			d = g.doc("damaged")
		}
		ways := []string{"str", "byt", g.stream()}
		for k := 1 + r.Intn(3); k > 0; k-- {
			g.op(0, "p", d, r.Intn(etxRegs), r.Intn(2), ways[r.Intn(3)])
		}
		if r.Intn(3) == 0 {
			g.op(0, "p", good, 0, 0, ways[r.Intn(3)])
		}
	}
	if r.Intn(4) > 0 {
		return
	}
	// Somebody else parses at the same time.
	for n := 1 + r.Intn(3); n > 0; n-- {
		g.op(1, "p", r.Intn(len(p.Docs)), 0, 0, g.way())
	}
}

func genE08(p *Plan, r *simrt.Rand) {
	g := newEtxGen(p, r)
	for n := 1 + r.Intn(2); n > 0; n-- {
		if r.Intn(3) == 0 {
			g.doc("sized")
		} else {
			g.doc("any")
		}
	}
	nt := g.crowd(1 + r.Intn(3))
	for t := 0; t < nt; t++ {
		for n := 1 + r.Intn(3); n > 0; n-- {
			d := r.Intn(len(p.Docs))
			w := g.stream()
			if r.Intn(3) == 0 {
				w = g.failing(d)
			}
			g.op(t, "p", d, r.Intn(etxRegs), r.Intn(2), w)
			if r.Intn(3) == 0 {
				g.op(t, "sl", stall(r, 14), 0, 0, "")
			}
		}
	}
}

func genE09(p *Plan, r *simrt.Rand) {
	g := newEtxGen(p, r)
	p.Cfg["pristine"] = 1
	for n := 3 + r.Intn(5); n > 0; n-- {
		g.doc("any")
	}
	nt := 1
	if r.Intn(4) == 0 {
		nt = 2
	}
	for t := 0; t < nt; t++ {
		for n := 4 + r.Intn(12); n > 0; n-- {
			d := r.Intn(len(p.Docs))
			switch x := r.Intn(12); {
			case x < 8:
				g.op(t, "p", d, r.Intn(etxRegs), r.Intn(2), g.way())
			case x < 9:
				g.op(t, "p", d, r.Intn(etxRegs), r.Intn(2), g.failing(d))
			case x < 10:
				g.op(t, "ed", r.Intn(etxRegs), r.Intn(64), 0, "")
			case x < 11:
				switch r.Intn(3) {
				case 0:
					g.op(t, "cl", r.Intn(etxRegs), r.Intn(etxRegs), r.Intn(20), "")
				case 1:
					g.op(t, "fs", r.Intn(etxRegs), 0, r.Intn(40), "")
				default:
					g.op(t, "ch", r.Intn(etxRegs), r.Intn(2), r.Intn(40), "")
				}
			default:
				g.op(t, "ov", 0, 0, 0, "")
			}
		}
	}
}
