package main

import (
	"fmt"
	"regexp"
	"strings"

	"verif.local/sim/simrt"
)

// docGen writes well-formed documents that use every construct of the language.
// Names, texts and numbers carry markers, unique in the plan, which must turn up
// in the tree of that document and no other.
type docGen struct {
	sb    strings.Builder
	r     *simrt.Rand
	seq   *int
	marks []string
	depth int
	width int
	nl    string // line ending
	inStr bool   // inside an interpolation
	wide  int    // elements still to be spent on long lists of all kinds
}

var markRe = regexp.MustCompile(`m\d+q|77\d{4}77`)

func (g *docGen) p(format string, a ...any) { fmt.Fprintf(&g.sb, format, a...) }
func (g *docGen) one(s ...string) string    { return s[g.r.Intn(len(s))] }
func (g *docGen) odds(n int) bool           { return g.r.Intn(n) == 0 }

// some returns how many of something to write: less than n, or a great many.
func (g *docGen) some(n int) int {
	if g.wide > 0 && g.odds(4) {
		k := 8 + g.r.Intn(1+g.wide)
		g.wide -= k
		return k
	}
	return g.r.Intn(n)
}

func (g *docGen) mark() string {
	*g.seq++
	m := fmt.Sprintf("m%dq", *g.seq)
	g.marks = append(g.marks, m)
	return m
}

func (g *docGen) name() string {
	m := g.mark()
	switch g.r.Intn(10) {
	case 0:
		return m + "-x_1"
	case 1:
		return "Ab" + m
	case 2:
		return m + "_"
	}
	return m
}

func (g *docGen) dotted() string {
	s := g.name()
	for g.odds(4) {
		s += "." + g.name()
	}
	return s
}

func (g *docGen) text() string {
	s := g.mark()
	switch g.r.Intn(6) {
	case 0:
		s += " Ünïcödé 世界 \U0001F980"
	case 1:
		s = "é" + s + "\u2028\u00a0"
	case 2:
		s = " " + s + "\t{}[]()=#//"
	}
	return s
}

func (g *docGen) comment() {
	switch g.r.Intn(4) {
	case 0:
		g.p("/* %s%s * %s */%s", g.text(), g.nl, g.text(), g.nl)
	case 1:
		g.p("# %s%s// %s%s", g.text(), g.nl, g.text(), g.nl)
	case 2:
		g.p("#%s%s", g.mark(), g.nl)
	default:
		g.p("// %s%s", g.text(), g.nl)
	}
}

func (g *docGen) number() string {
	switch g.r.Intn(8) {
	case 0:
		return g.one("0", "1", "007", "1_000", "0b1010_0101", "0o17", "0xDE_AD", "1e3", "2.5E-7", ".5", "1.75", "0_1")
	case 1:
		return g.one("123456789012345678901234567890", "3.14159265358979323846264338327950288", "1e300", "0xffffffffffffffffffff")
	}
	*g.seq++
	m := fmt.Sprintf("77%04d77", *g.seq%10000)
	g.marks = append(g.marks, m)
	return m
}

func (g *docGen) str() {
	q := g.one(`"`, `'`)
	g.p("%s", q)
	for n := g.some(4); n > 0; n-- {
		switch g.r.Intn(9) {
		case 0:
			g.p("%s", g.one(`\n`, `\"`, `\'`, `\\`, `\$`, `\t`))
		case 1:
			g.p("%s", g.one(`\u00e9 `, `\u0001F980 `, `\uABCD-`))
		case 2:
			if q == `"` {
				g.p("'")
			} else {
				g.p(`"`)
			}
		case 3:
			g.p("%s", g.one("$${", "%%{"))
			g.p("%s", g.text())
		case 4, 5:
			if g.depth > 0 {
				g.p("%s", g.one("${", "%{", "${ "))
				was := g.inStr
				g.inStr = true
				g.expr()
				g.inStr = was
				g.p("%s", g.one("}", " }"))
			}
		default:
			g.p("%s", g.text())
		}
	}
	g.p("%s", q)
}

func (g *docGen) heredoc() {
	d := "HD"
	if g.odds(3) { // any word ends a heredoc
		d = g.one("1", "0x", "_", "__", "if", "null", "e", "E", "h"+strings.Repeat("d", g.r.Intn(200)), "0", "9_", "_1")
	}
	d += g.mark()
	g.p("<<%s%s\n", g.one("", "-"), d)
	for n := g.some(5); n > 0; n-- {
		switch g.r.Intn(5) {
		case 0:
			g.p("%s${", g.text())
			was := g.inStr
			g.inStr = true
			g.expr()
			g.inStr = was
			g.p("} tail")
		case 1:
			g.p("x $${ %s", g.text())
		case 2:
			g.p("\t%%{")
			was := g.inStr
			g.inStr = true
			g.expr()
			g.inStr = was
			g.p("}")
		default:
			g.p("  %s", g.text())
		}
		g.p("\n")
	}
	// The delimiter is part of the tree once.
	g.p("%s", d)
	if g.odds(2) {
		g.sb.WriteString("")
	}
}

// lf writes an optional line break.
func (g *docGen) lf() {
	if g.odds(2) {
		g.p("%s", g.nl)
	}
}

func (g *docGen) list() {
	g.p("[")
	g.lf()
	for n := g.some(g.width + 1); n > 0; n-- {
		switch {
		case g.odds(8) && !g.inStr:
			g.comment()
		case g.odds(8):
			g.p("%s%s", g.nl, g.nl)
		}
		g.expr()
		g.p(",%s", g.one(" ", g.nl, ""))
	}
	g.p("]")
}

func (g *docGen) mapping() {
	g.p("{")
	g.lf()
	for n := g.some(g.width + 1); n > 0; n-- {
		if g.odds(6) {
			g.comment()
		}
		if g.odds(3) {
			g.p(`"%s"`, g.text())
		} else {
			g.p("%s", g.dotted())
		}
		g.p(" = ")
		g.expr()
		g.p(",%s", g.nl)
	}
	g.p("}")
}

func (g *docGen) primary() {
	g.depth--
	defer func() { g.depth++ }()
	if g.depth < 0 {
		if g.odds(3) {
			g.p("%s", g.number())
		} else {
			g.p("%s", g.name())
		}
		return
	}
	switch g.r.Intn(14) {
	case 0:
		g.p("(")
		g.expr()
		g.p(")")
	case 1, 2:
		g.p("%s", g.number())
	case 3, 4:
		g.str()
	case 5:
		if g.inStr || g.nl != "\n" {
			g.str()
		} else {
			g.heredoc()
		}
	case 6:
		g.list()
	case 7:
		if g.inStr {
			g.list()
		} else {
			g.mapping()
		}
	case 8, 9:
		g.p("%s", g.dotted())
		for n := 1 + g.r.Intn(2); n > 0; n-- {
			g.p("(")
			for k := g.some(3); k > 0; k-- {
				g.expr()
				if k > 1 {
					g.p(", ")
				}
			}
			g.p(")")
		}
		if g.odds(3) {
			g.p(".%s", g.dotted())
		}
	case 10:
		g.p("%s", g.one("true", "false", "null"))
	default:
		g.p("%s", g.dotted())
	}
	if g.odds(8) {
		g.p("[")
		g.expr()
		g.p("]")
		if g.odds(3) {
			g.p(".%s", g.dotted())
		}
	}
}

var binaryOps = []string{"||", "&&", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%"}

func (g *docGen) binary() {
	if g.odds(6) {
		g.p("%s", g.one("-", "+", "!", "~"))
	}
	g.primary()
	n, long := 0, 0
	if g.wide > 0 && g.odds(8) {
		long = g.some(1)
	}
	for n < long || g.odds(3) && n < 4 {
		g.p(" %s ", binaryOps[g.r.Intn(len(binaryOps))])
		g.primary()
		n++
	}
}

func (g *docGen) expr() {
	g.depth--
	defer func() { g.depth++ }()
	if g.depth > 0 && !g.inStr && g.odds(10) {
		if g.odds(2) {
			g.ifExpr()
		} else {
			g.switchExpr()
		}
		return
	}
	g.binary()
	if g.depth > 0 && g.odds(8) {
		g.p(" ? ")
		g.binary()
		g.p(" : ")
		g.binary()
	}
}

func (g *docGen) ifExpr() {
	g.p("if %s == %s {", g.name(), g.number())
	g.lf()
	if !g.odds(5) {
		g.expr()
	}
	g.lf()
	g.p("}")
	if g.odds(2) {
		g.p(" else {")
		g.lf()
		g.expr()
		g.lf()
		g.p("}")
	}
}

func (g *docGen) switchExpr() {
	g.p("switch %s {%s", g.name(), g.nl)
	for n := g.some(3); n > 0; n-- {
		g.p("case %s", g.number())
		if g.odds(2) {
			g.p(", %s", g.name())
		}
		g.p(": {")
		g.lf()
		g.expr()
		g.lf()
		g.p("}%s", g.nl)
	}
	if g.odds(2) {
		g.p("default: {")
		g.lf()
		g.expr()
		g.lf()
		g.p("}%s", g.nl)
	}
	g.p("}")
}

func (g *docGen) ptype() {
	if g.depth > 0 && g.odds(5) {
		g.depth--
		g.p("(")
		for n := g.some(3); n > 0; n-- {
			g.ptype()
			if n > 1 {
				g.p(", ")
			}
		}
		g.p(") -> ")
		g.ptype()
		g.depth++
		return
	}
	g.p("%s", g.dotted())
}

func (g *docGen) attr() {
	g.p("%s", g.name())
	if !g.odds(6) {
		g.p(" = ")
		g.expr()
	}
	g.p("%s", g.nl)
}

func (g *docGen) block() {
	g.depth--
	g.p("%s", g.name())
	for n := g.some(3); n > 0; n-- {
		if g.odds(2) {
			g.p(` "%s"`, g.text())
		} else {
			g.p(" %s", g.name())
		}
	}
	g.p(" {")
	g.lf()
	for n := g.some(g.width + 1); n > 0; n-- {
		switch {
		case g.odds(6):
			g.comment()
		case g.odds(6):
			g.p("%s", g.nl)
		case g.depth > 0 && g.odds(4):
			g.block()
		default:
			g.attr()
		}
	}
	g.p("}%s", g.nl)
	g.depth++
}

func (g *docGen) decl(kinds ...string) {
	g.p("%s %s", g.one(kinds...), g.name())
	if g.odds(2) {
		g.p(": ")
		g.ptype()
	}
	if !g.odds(3) {
		g.p(" = ")
		g.expr()
	}
	g.p("%s", g.nl)
}

func (g *docGen) fun() {
	g.p("def %s(", g.name())
	for n := g.some(3); n > 0; n-- {
		g.p("%s", g.name())
		if g.odds(2) {
			g.p(": ")
			g.ptype()
		}
		if n > 1 {
			g.p(", ")
		}
	}
	g.p(")")
	switch g.r.Intn(3) {
	case 0:
		g.p(" ")
		g.p("%s", g.dotted())
	case 1:
		g.p(" (")
		for n := g.some(3); n > 0; n-- {
			g.p("%s", g.dotted())
			if n > 1 {
				g.p(", ")
			}
		}
		g.p(")")
	}
	g.p(" {%s", g.nl)
	for n := g.some(g.width + 1); n > 0; n-- {
		switch g.r.Intn(6) {
		case 0:
			g.comment()
		case 1:
			g.p("%s", g.nl)
		case 2, 3:
			g.decl("const", "val")
		default:
			g.expr()
			g.p("%s", g.nl)
		}
	}
	g.p("}%s", g.nl)
}

func (g *docGen) typ() {
	if g.odds(2) {
		g.p("type %s enum {%s", g.name(), g.nl)
		for n := g.some(g.width + 1); n > 0; n-- {
			switch {
			case g.odds(6):
				g.comment()
			case g.odds(6):
				g.p("%s", g.nl)
			default:
				g.p("%s: ", g.name())
				g.expr()
				g.p("%s", g.nl)
			}
		}
	} else {
		g.p("type %s object {%s", g.name(), g.nl)
		plain := !g.odds(3)
		for n := g.some(g.width + 1); n > 0; n-- {
			switch {
			case !plain && g.odds(5):
				g.comment()
			case !plain && g.odds(5):
				g.p("%s", g.nl)
			default:
				g.p("%s: ", g.name())
				g.ptype()
				g.p("%s", g.nl)
			}
		}
	}
	g.p("}%s", g.nl)
}

func (g *docGen) item() {
	switch g.r.Intn(13) {
	case 0:
		g.comment()
	case 1:
		g.p("%s", g.nl)
	case 2, 3:
		g.decl("input", "output", "const", "val")
	case 4, 5:
		g.fun()
	case 6, 7:
		g.typ()
	case 8, 9:
		g.block()
	default:
		g.attr()
	}
}

// A docSpec says what kind of document is wanted.
type docSpec struct {
	items, depth, width int
	pad                 int // bring the size near this many bytes
	crlf                bool
	wide                int // spend so many elements on long lists
}

func smallSpec(r *simrt.Rand) docSpec {
	if r.Intn(20) == 0 {
		return docSpec{items: 1 + r.Intn(4), depth: 1 + r.Intn(3), width: 2, wide: 20 << r.Intn(3)}
	}
	return docSpec{items: r.Intn(5), depth: 1 + r.Intn(4), width: 1 + r.Intn(3), crlf: r.Intn(8) == 0}
}

// edges are the sizes at which buffers of the standard library fill up.
var edges = []int{512, 512, 1024, 4096, 4096, 8192, 32768}

// bigEdges are limits somebody might think nobody reaches.
var bigEdges = []int{65536, 65536, 100_000, 1 << 17, 1_000_000, 1 << 20}

func sizedSpec(r *simrt.Rand) docSpec {
	s := smallSpec(r)
	if r.Intn(4) == 0 {
		s.pad = edges[r.Intn(len(edges))] - 2 + r.Intn(5)
		if r.Intn(30) == 0 {
			s.pad = bigEdges[r.Intn(len(bigEdges))] - 2 + r.Intn(5)
		}
	}
	return s
}

// validDoc writes a well-formed document.
func validDoc(r *simrt.Rand, seq *int, s docSpec) Doc {
	g := &docGen{r: r, seq: seq, depth: s.depth, width: s.width, nl: "\n", wide: s.wide}
	if s.crlf {
		g.nl = "\r\n"
	}
	for i := 0; i < s.items; i++ {
		g.item()
	}
	if n := s.pad - g.sb.Len(); n > 0 {
		fill := func(n int) string {
			const t = "padding ä "
			b := strings.Repeat(t, n/len(t)+1)[:n]
			return strings.ToValidUTF8(b, "~")
		}
		kind := r.Intn(3)
		if s.pad > 40000 {
			kind = r.Intn(2)
		}
		if kind == 2 && s.pad > 1100 && r.Intn(6) > 0 {
			kind = r.Intn(2)
		}
		switch kind {
		case 0:
			if n > 3 {
				g.p("//%s\n", fill(n-3))
			}
		case 1:
			if n > 10 {
				g.p("%s", (g.mark() + " = \"")[:])
				n = s.pad - g.sb.Len() - 2
				if n > 0 {
					g.p("%s", fill(n))
				}
				g.p("\"\n")
			}
		default:
			for g.sb.Len() < s.pad {
				before := g.sb.Len()
				g.attr()
				_ = before
			}
		}
	}
	d := newDoc([]byte(g.sb.String()))
	d.Marks = g.marks
	if d.Marks == nil {
		d.Marks = []string{""}
	}
	return d
}

// brokenDoc writes a document of ordinary malformed input.
func brokenDoc(r *simrt.Rand, seq *int) Doc {
	d := validDoc(r, seq, smallSpec(r))
	b := append([]byte{}, d.data()...)
	*seq++
	add := []string{"= ", "\"open ", "${", "a = \"%", "<<HD\nnever closed", "b = [1, ", "def (", "type x", "}", "\x00", "$", "a = 0x", "c = 1__e\n", "a = <<X\n${1}\n", "\\", "`",
		"x = 'it\"", "/* open", "if", "a = if {", "a = 09\n", "a = \"\\u12\"\n", "a = _\n", "\xff\xfe", "\ufeff"}[r.Intn(25)]
	at := len(b)
	if r.Intn(2) == 0 {
		at = r.Intn(len(b) + 1)
	}
	nb := append(append(append([]byte{}, b[:at]...), fmt.Sprintf("%s m%dq", add, *seq)...), b[at:]...)
	return newDoc(nb)
}

// damage does to a document what a bad transport would.
func damage(r *simrt.Rand, b []byte, others [][]byte) ([]byte, string) {
	b = append([]byte{}, b...)
	n := len(b)
	cut := func() (int, int) {
		i := r.Intn(n + 1)
		l := 1 + r.Intn(1<<uint(r.Intn(8)))
		if i+l > n {
			l = n - i
		}
		return i, i + l
	}
	if n == 0 {
		return b, "none"
	}
	switch r.Intn(15) {
	case 13, 14:
		return respace(r, b), "respaced"
	case 8, 9, 10, 11, 12:
		return edit(r, b), "tokens_edited"
	case 0, 1:
		return b[:r.Intn(n+1)], "truncated"
	case 2:
		for k := 1 + r.Intn(3); k > 0; k-- {
			b[r.Intn(n)] ^= 1 << uint(r.Intn(8))
		}
		return b, "bits_flipped"
	case 3:
		i, j := cut()
		return append(b[:i:i], b[j:]...), "piece_lost"
	case 4:
		i, j := cut()
		return append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...), "piece_doubled"
	case 5:
		o := b
		if len(others) > 0 {
			o = others[r.Intn(len(others))]
		}
		if len(o) == 0 {
			return b, "none"
		}
		i, j := r.Intn(n+1), r.Intn(len(o))
		return append(append([]byte{}, b[:i]...), o[j:]...), "spliced"
	case 6:
		i, j := cut()
		for ; i < j; i++ {
			b[i] = byte(r.Intn(256))
		}
		return b, "garbage"
	default:
		i, j := cut()
		for k := i; k < j; k++ {
			b[k] = 0
		}
		return b, "zeroed"
	}
}

// twin returns a document of the same length that differs in a few letters or
// digits, or in the order of two of them.
func twin(r *simrt.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	class := func(c byte) int {
		switch {
		case c >= '0' && c <= '9':
			return 1
		case c >= 'a' && c <= 'z':
			return 2
		case c >= 'A' && c <= 'Z':
			return 3
		}
		return 0
	}
	var at []int
	for i, c := range b {
		if class(c) != 0 {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return b
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		i := at[r.Intn(len(at))]
		if r.Intn(3) == 0 {
			j := at[r.Intn(len(at))]
			if class(b[i]) == class(b[j]) {
				b[i], b[j] = b[j], b[i]
			}
			continue
		}
		switch class(b[i]) {
		case 1:
			b[i] = byte('1' + r.Intn(9))
		case 2:
			b[i] = byte('a' + r.Intn(26))
		default:
			b[i] = byte('A' + r.Intn(26))
		}
	}
	return b
}

// oddTokens is what token edits put into documents.
var oddTokens = []string{
	" ", " ", " ", "\t", "\n", "\n", "\r", "\r\n", "\n\n\n", "\v", "\f", "\u00a0", "\ufeff", "\u2028", "\xff", "\xc3", "\x00",
	"(", ")", "[", "]", "{", "}", "((", "))", "{}", "()", "[]", ",", ",,", ":", ".", "..", ";", "=", "==", "===", "=>", "->", "!", "!=", "~",
	"&", "&&", "&&&", "|", "||", "^", "<", "<<", "<<<", "<=", ">", ">>", ">=", "+", "++", "-", "--", "*", "**", "/", "%", "?", "@", "$", "`", "\\",
	"'", "\"", "''", "\"\"", "'\"", "\\n", "\\u", "\\u12", "\\u12345", "\\u0000", "\\u123456789", "\\'", "\\\"", "${", "%{", "$${", "%%{", "${}", "%{}", "$", "%",
	"//", "#", "// x", "/*", "*/", "/**/", "/*\n*/", "// x\n", "/* x",
	"<<E\n", "<<-E\n", "<<E", "<<-", "<<E\nE", "<<E\nE\n", "<<E\n\nE\n", "<<E\n${", "<<1\nx\n1\n", "<<-_a\n x\n_a\n", "<<if\nx\nif\n", "<<0x\n0x\n", "E", "E\n", "<<_\n", "<<1\n1", "<< E\n",
	"0", "1", "0.5", ".5", "5.", "0x", "0xG", "0xff_", "0b", "0b2", "0o", "0o8", "08", "0_8", "00", "_", "__", "1_", "_1", "1__1", "1e", "1e5", "1e+", "1E-_", "1e_",
	"1e99", "1e-99", "1e999999", "1e99999999999999999999", "0x_", "0b_", "0o_", "._", "0_", "9999999999999999999999999999",
	"if", "else", "switch", "case", "def", "val", "const", "input", "output", "type", "enum", "object", "null", "true", "false", "default",
	"a", "a-b", "a-", "-a", "a.b", "a.", "\u00e9", "a1", "x_", "if-x", "truex", "nul", "else if",
}

// edit changes a document token by token.
func edit(r *simrt.Rand, b []byte) []byte {
	toks := tokens(b)
	for n := 1 + r.Intn(1+r.Intn(5)); n > 0 && len(toks) > 0; n-- {
		i := r.Intn(len(toks))
		if r.Intn(5) == 0 {
			oddNumber(r, toks)
			continue
		}
		switch r.Intn(8) {
		case 0:
			toks = append(toks[:i:i], toks[i+1:]...)
		case 1:
			toks = append(toks[:i:i], append([]string{toks[i]}, toks[i:]...)...)
		case 2:
			j := r.Intn(len(toks))
			toks[i], toks[j] = toks[j], toks[i]
		case 3:
			if i+1 < len(toks) {
				toks[i], toks[i+1] = toks[i+1], toks[i]
			}
		case 4:
			toks[i] = oddTokens[r.Intn(len(oddTokens))]
		case 5:
			// A token of the same document elsewhere.
			toks = append(toks[:i:i], append([]string{toks[r.Intn(len(toks))]}, toks[i:]...)...)
		default:
			toks = append(toks[:i:i], append([]string{oddTokens[r.Intn(len(oddTokens))]}, toks[i:]...)...)
		}
	}
	return []byte(strings.Join(toks, ""))
}

// oddNumber changes one of the numbers among some tokens letter by letter.
func oddNumber(r *simrt.Rand, toks []string) {
	var at []int
	for i, t := range toks {
		if t[0] >= '0' && t[0] <= '9' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return
	}
	i := at[r.Intn(len(at))]
	t := toks[i]
	add := []string{"_", "__", ".", "0", "1", "7", "9", "e", "E", "e-", "e+9", "x", "0x", "0b", "0o", "f", "+", "-", "00", "99999"}
	letter := ""
	if r.Intn(2) == 0 {
		letter = add[r.Intn(len(add))]
		if r.Intn(3) == 0 {
			letter = "_"
		}
	}
	for n := 1 + r.Intn(6); n > 0; n-- {
		l := letter
		if l == "" {
			l = add[r.Intn(len(add))]
		}
		k := r.Intn(len(t) + 1)
		switch r.Intn(6) {
		case 0:
			k = 0
		case 1, 2:
			k = len(t)
		case 3:
			if k < len(t) && len(t) > 1 {
				t = t[:k] + t[k+1:]
				continue
			}
		}
		t = t[:k] + l + t[k:]
	}
	toks[i] = t
}

// respace changes blanks and line ends, throughout or here and there, as
// editors and transports do.
func respace(r *simrt.Rand, b []byte) []byte {
	every := 1
	if r.Intn(2) == 0 {
		every = 1 + r.Intn(12)
	}
	ends := []string{" \n", " \n", "\t\n", "  \t \n", "\r\n", "\r", "\n\n", "\n ", "\n\t", "\n\r", "", " ", "\\\n", ";\n", ",\n", "\n\n\n"}
	blanks := []string{"", "  ", "\t", "\n", " \n", "\r", "\u00a0", "/**/", " // x\n"}
	to, from := ends[r.Intn(len(ends))], byte('\n')
	if r.Intn(4) == 0 {
		to, from = blanks[r.Intn(len(blanks))], ' '
	}
	var out []byte
	if r.Intn(12) == 0 {
		out = append(out, "\ufeff"...)
	}
	for _, c := range b {
		if c == from && (every == 1 || r.Intn(every) == 0) {
			out = append(out, to...)
		} else {
			out = append(out, c)
		}
	}
	return out
}

// tokens cuts a document into words, runs of blanks, and single other bytes.
func tokens(b []byte) []string {
	kind := func(c byte) int {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c >= 0x80:
			return 1
		case c == ' ' || c == '\t':
			return 2
		}
		return 0
	}
	var out []string
	for i := 0; i < len(b); {
		j := i + 1
		for k := kind(b[i]); k != 0 && j < len(b) && kind(b[j]) == k; j++ {
		}
		out = append(out, string(b[i:j]))
		i = j
	}
	return out
}

// deepDoc nests one construct n levels deep.
func deepDoc(r *simrt.Rand, seq *int, n int) Doc {
	*seq++
	m := fmt.Sprintf("m%dq", *seq)
	open, mid, end := "", m, ""
	s := "a = "
	switch r.Intn(9) {
	case 0:
		open, end = "(", ")"
	case 1:
		open, end = "[", "]"
	case 2:
		open, end = "{k=", "}"
	case 3:
		open, end = "\"${", "}\""
	case 4:
		open, end = "f(", ")"
	case 5:
		open, end = "1?", ":2"
	case 6:
		s, open, mid, end = "", "b {\n", "a="+m+"\n", "}\n"
	case 7:
		open, end = []string{"-", "!", "~", "1+", "1*-", "1<", "a&&", "a==b||"}[r.Intn(8)], ""
	default:
		open, end = "a[", "]"
	}
	s += strings.Repeat(open, n) + mid
	if r.Intn(3) > 0 {
		s += strings.Repeat(end, n)
	}
	return newDoc([]byte(s + "\n"))
}

// repeatDoc repeats a token, up to thousands of times, in one of the places of a
// document.
func repeatDoc(r *simrt.Rand, seq *int) Doc {
	*seq++
	m := fmt.Sprintf("m%dq", *seq)
	n := 1 + r.Intn(1<<(1+r.Intn(13)))
	piece := oddTokens[r.Intn(len(oddTokens))]
	if r.Intn(2) == 0 {
		const chars = "()[]{}<>,.:;\"'$%\\/*#=-_+0aZ \t\n\r"
		piece = string(chars[r.Intn(len(chars))])
	}
	place := r.Intn(9)
	if r.Intn(3) == 0 {
		// Much of what counts elsewhere where it does not count.
		piece = string("([{<)]}>\"'$%\\"[r.Intn(13)])
		place = r.Intn(4)
		n = 100 << r.Intn(8)
	}
	if place > 3 && n > 200 && strings.ContainsAny(piece, "([{\"'?!~-<") {
		n = 200 // nested as deep as that
	}
	if limit := 20000 / len(piece); n > limit {
		n = limit
	}
	body := strings.Repeat(piece, n)
	s := ""
	switch place {
	case 0:
		s = "// " + body + "\nval " + m + " = 1\n"
	case 1:
		s = "/* " + body + " */\nval " + m + " = 1\n"
	case 2:
		s = "val " + m + " = \"" + body + "\"\n"
	case 3:
		s = "val " + m + " = <<E\n" + body + "\nE\n"
	case 4:
		s = "val " + m + body + " = 1\n"
	case 5:
		s = "val " + m + " = 1" + body + "\n"
	case 6:
		s = body + "val " + m + " = 2\n"
	case 7:
		s = "val " + m + " = [" + body + "]\n"
	default:
		s = m + " {\n" + body + "\n}\n"
	}
	return newDoc([]byte(s))
}

// vastDoc makes a document with one list that has more elements than bounds,
// blocks and tables people choose.
func vastDoc(r *simrt.Rand, seq *int, most int) Doc {
	n := []int{128, 256, 512, 1000, 1024, 1024, 1024, 2048, 4096, 4096}[r.Intn(10)]
	switch r.Intn(3) {
	case 0:
		n += r.Intn(9) - 4
	case 1:
		n += 1 + r.Intn(1+n/16)
	default:
		n += r.Intn(n)
	}
	if n > most || n > 1500 && r.Intn(3) > 0 {
		n /= 4
	}
	name := func() string {
		*seq++
		return fmt.Sprintf("m%dq", *seq)
	}
	before, between, after := "", "", ""
	element := name
	shape := r.Intn(19)
	if shape > 15 {
		shape = []int{6, 6, 15}[shape-16]
	}
	switch shape {
	case 6, 7, 8, 9, 11, 13, 15:
	default: // each element is a score of nodes
		if most < 2000 {
			n /= 4
		}
	}
	switch shape {
	case 0:
		before, between, after = "val "+name()+" = [", ", ", "]\n"
	case 1:
		before, between, after = "val "+name()+" = [", ", ", "]\n"
		i := 0
		element = func() string { i++; return fmt.Sprint(i) }
	case 2:
		before, between, after = "val "+name()+" = "+name()+"(", ", ", ")\n"
	case 3:
		element = func() string { return name() + " = " + name() }
		between, after = "\n", "\n"
	case 4:
		element = func() string { return "val " + name() + " = 1" }
		between, after = "\n", "\n"
	case 5:
		before, between, after = name()+" {\n", "\n", "\n}\n"
		element = func() string { return name() + " = \"" + name() + "\"" }
	case 6:
		before, between, after = name()+" {\n", "\n", "\n}\n"
		element = func() string { return name() + " {\n}" }
	case 7:
		before, between, after = name()+" ", " ", " {\n}\n"
	case 8:
		element = func() string { return "// " + name() }
		between, after = "\n", "\nval "+name()+" = 1\n"
	case 9:
		before, between, after = "val "+name()+" = <<E\n", "\n", "\nE\n"
	case 10:
		before, between, after = "val "+name()+" = ", []string{" + ", " && ", " || ", " * ", " | ", " == "}[r.Intn(6)], "\n"
	case 11:
		before, between, after = "val "+name()+" = ", ".", "\n"
	case 12:
		before, between, after = "val "+name()+" = \"", " ${"+name()+"} ", "\"\n"
	case 15:
		element = func() string { return name() + " {\n}" }
		between, after = "\n", "\n"
	case 13:
		before, after = "val "+name()+" = 1\n", "val "+name()+" = 2\n"
		element = func() string { return "\n" }
	default:
		before, between, after = "val "+name()+" = {", ", ", "}\n"
		element = func() string { return name() + ": " + name() }
	}
	var b strings.Builder
	b.WriteString(before)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(between)
		}
		b.WriteString(element())
	}
	b.WriteString(after)
	return newDoc([]byte(b.String()))
}
