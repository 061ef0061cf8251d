package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"

	"verif.local/sim/etxx"
	"verif.local/sim/simrt"
)

func init() { scenarios["etx"] = runEtx }

// The document engine. Client threads parse documents and work with the trees.
// Registers 0..etxRegs-1 are a thread's own trees; registers from sharedReg on
// are trees made before the threads start, which all threads may read, or one
// may change.

const (
	etxRegs   = 4
	sharedReg = 100
)

// A tree is a register's content.
type tree struct {
	x     etxx.Tree
	want  string // the dump it must have
	doc   int
	made  string   // how it was made
	plain bool     // as parsed: never edited, no part
	wild  bool     // nodes were taken away
	how   []string // steps that rebuild it from its document
	owner int      // the only thread that may use it, or -1
}

// A record is the outcome of one parse.
type record struct {
	doc      int
	what     string
	x        etxx.Tree
	dump     string
	err      error
	errText  string
	name     string
	files    []string
	panicked bool
	s        *stream
	n        int // bytes in the document
}

type etxEnv struct {
	*env
	docs    [][]byte
	slices  [][]byte // one slice per document, shared by all threads
	shared  []*tree
	all     []*tree // every tree of the run, kept alive
	records []*record
	golden  map[int]*record
	edits   bool
	reads   []*reading
	streams []*stream
}

// A reading is what a thread got from a tree, and how that tree had been made.
type reading struct {
	doc  int
	how  []string
	part int
	kind string
	got  string
	what string
}

type etxThread struct {
	d     *etxEnv
	id    int
	ops   []Op
	regs  [etxRegs]*tree
	bufs  [][]byte
	recs  []*record
	trees []*tree
	reads []*reading
	lists []held
	rng   simrt.Rand
}

func runEtx(e *env) {
	d := &etxEnv{env: e, golden: map[int]*record{}}
	for i := range e.plan.Docs {
		b := append([]byte{}, e.plan.Docs[i].data()...)
		d.docs = append(d.docs, b)
		d.slices = append(d.slices, append(make([]byte, 0, len(b)+64), b...))
	}
	if len(d.docs) == 0 {
		d.docs, d.slices = [][]byte{nil}, [][]byte{nil}
	}
	root := &etxThread{d: d, id: -1, rng: *simrt.NewRand(e.plan.Seed ^ 99)}
	var threads []*etxThread
	edits := false // among the threads
	for _, o := range e.plan.Ops {
		switch o.K {
		case "ed", "ln", "ov":
			d.edits = true
			edits = edits || o.T >= 0
		}
		if o.T < 0 {
			root.ops = append(root.ops, o)
			continue
		}
		for o.T >= len(threads) {
			threads = append(threads, &etxThread{d: d, id: len(threads), rng: *simrt.NewRand(e.plan.Seed ^ uint64(len(threads)))})
		}
		threads[o.T].ops = append(threads[o.T].ops, o)
	}
	root.run()
	for _, r := range d.shared {
		d.same(r, "tree of "+r.made)
	}
	d.edits = edits
	var tasks []*simrt.Task
	for _, t := range threads {
		t := t
		tasks = append(tasks, simrt.Spawn("thread", t.run))
	}
	for _, t := range tasks {
		simrt.Join(t)
	}
	for _, t := range append([]*etxThread{root}, threads...) {
		d.records = append(d.records, t.recs...)
		d.all = append(d.all, t.trees...)
		d.reads = append(d.reads, t.reads...)
		t.checkLists()
	}
	simrt.Quiesce()
	d.check()
	e.after = append(e.after, d.final)
}

// ------------------------------------------------------------------ clients

func (t *etxThread) run() {
	for i, o := range t.ops {
		simrt.Op()
		simrt.Ev(o.K, o.A, o.B)
		t.step(i, o)
	}
}

// reg returns a register's tree if the thread may use it, and whether it may
// change it.
func (t *etxThread) reg(n int) (*tree, bool) {
	if n < 0 {
		n = -n
	}
	if n >= sharedReg {
		l := t.d.shared
		if len(l) == 0 {
			return nil, false
		}
		x := l[(n-sharedReg)%len(l)]
		if x == nil || t.id >= 0 && x.owner >= 0 && x.owner != t.id {
			return nil, false
		}
		return x, t.id < 0 || x.owner == t.id
	}
	return t.regs[n%etxRegs], true
}

func (t *etxThread) put(n int, x *tree) {
	if n < 0 {
		n = -n
	}
	t.trees = append(t.trees, x)
	if n < sharedReg {
		t.regs[n%etxRegs] = x
		return
	}
	if t.id >= 0 {
		t.regs[n%etxRegs] = x
		return
	}
	x.owner = t.d.cfg("own"+strconv.Itoa(len(t.d.shared))) - 1
	t.d.shared = append(t.d.shared, x)
}

func (t *etxThread) step(i int, o Op) {
	d := t.d
	switch o.K {
	case "p":
		doc := mod(o.A, len(d.docs))
		rec := t.parse(doc, o)
		t.recs = append(t.recs, rec)
		if rec.x != nil {
			t.put(o.B, &tree{x: rec.x, want: rec.dump, doc: doc, plain: rec.name == "", made: rec.what, owner: t.id})
		}
	case "fs", "ch", "cl", "ca", "lm", "ck", "ed", "ln", "ra":
		r, change := t.reg(o.A)
		if r == nil {
			return
		}
		t.tree(i, o, r, change)
	case "ov":
		for _, b := range t.bufs {
			etxx.Fill(b[:cap(b)], i)
		}
		if len(t.bufs) > 0 {
			fault("input_overwritten")
		}
	case "yi":
		simrt.Gosched()
	case "sl":
		simrt.Sleep(int64(1 + abs(o.A)))
	}
}

// parse calls the parser in the way the operation asks for.
func (t *etxThread) parse(doc int, o Op) (rec *record) {
	d := t.d
	data := d.docs[doc]
	rec = &record{doc: doc, n: len(data), what: fmt.Sprintf("parse of document %d by thread %d (%s)", doc, t.id, o.S)}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(readerPanic); ok && rec.s != nil && rec.s.fault == "panic" {
				rec.panicked = true
				rec.s.done = true
				rec.x, rec.err = nil, nil
				return
			}
			fail("crash", "%s panicked: %v\n%s", rec.what, p, debug.Stack())
		}
	}()
	kind, rest, _ := strings.Cut(o.S, ":")
	probe("way_" + kind)
	switch kind {
	case "byt":
		b := append(make([]byte, 0, len(data)+32), data...)
		rec.x, rec.err = etxx.ParseBytes(b)
		rec.describe()
		if !bytes.Equal(b, data) {
			fail("input-changed", "%s changed the slice it was given", rec.what)
		}
		if o.C&1 != 0 {
			etxx.Fill(b[:cap(b)], o.C)
			fault("input_overwritten")
		} else {
			t.bufs = append(t.bufs, b)
		}
	case "shb":
		rec.x, rec.err = etxx.ParseBytes(d.slices[doc])
	case "r":
		f := strings.Split(rest, ":")
		for len(f) < 4 {
			f = append(f, "")
		}
		seed, _ := strconv.Atoi(f[1])
		at, _ := strconv.Atoi(f[3])
		r, s, name := open(f[0], append([]byte{}, data...), seed, f[2], at)
		probe("reader_" + f[0])
		rec.s, rec.name = s, name
		rec.x, rec.err = etxx.Parse(r)
		rec.describe()
		if s != nil {
			s.done = true
			if s.inside {
				s.note("a read was still in progress when the call returned")
			}
			if o.C&1 != 0 {
				etxx.Fill(s.data, o.C)
			} else {
				t.bufs = append(t.bufs, s.data)
			}
		}
		if f, ok := r.(*os.File); ok {
			if n, err := f.Read(make([]byte, 1)); errors.Is(err, os.ErrClosed) {
				failSoft("reader-closed", "%s: the file was closed", rec.what)
			} else if rec.x != nil && n > 0 {
				failSoft("reader-unread", "%s: the parse succeeded before the end of the file", rec.what)
			}
			f.Close()
		}
		if b, ok := r.(interface{ Len() int }); ok && s == nil && rec.x != nil && b.Len() > 0 {
			failSoft("reader-unread", "%s: the parse succeeded and left %d bytes in the %T", rec.what, b.Len(), r)
		}
		if b, ok := r.(*io.SectionReader); ok && rec.x != nil {
			if n, _ := b.Read(make([]byte, 1)); n > 0 {
				failSoft("reader-unread", "%s: the parse succeeded before the end of the section", rec.what)
			}
		}
		if b, ok := r.(*bytes.Buffer); ok {
			b.Reset()
			b.Write(bytes.Repeat([]byte("zq"), 40))
		}
	default:
		rec.x, rec.err = etxx.ParseString(string(data))
	}
	rec.describe()
	return rec
}

// describe writes down the outcome of a parse as it was at that moment.
func (rec *record) describe() {
	if rec.dump != "" {
		return
	}
	if rec.err != nil {
		rec.errText = rec.err.Error()
	}
	if rec.x != nil {
		if rec.name != "" {
			rec.files = etxx.Files(rec.x)
			etxx.Unname(rec.x)
		}
		rec.dump = etxx.Dump(rec.x, true)
	}
}

func (t *etxThread) tree(i int, o Op, r *tree, change bool) {
	what := fmt.Sprintf("thread %d, tree of %s", t.id, r.made)
	switch o.K {
	case "ck":
		if change {
			t.d.same(r, what)
		}
		return
	case "ed":
		if !change {
			return
		}
		some, wild := 1, o.B%2 == 0
		if o.B%4 > 1 {
			some = 2 + o.B%7
		}
		if o.B >= 32 {
			some = 4 + o.B // little changes
		}
		r.step("ed", some, wild, t.rng.Intn(1<<30))
		r.plain, r.wild = false, r.wild || wild
		r.want = etxx.Dump(r.x, true)
		fault("tree_edited")
		return
	case "ln":
		if !change || r.wild {
			return
		}
		if o.B%4 == 1 {
			r.step("ta", 0, false, t.rng.Intn(1<<30))
		} else {
			r.step("ln", 0, false, 0)
		}
		r.plain = false
		r.want = etxx.Dump(r.x, true)
		fault("tree_relinked")
		return
	}
	if r.wild {
		return
	}
	if o.K == "lm" {
		if l := etxx.Lambda(r.x); l != nil {
			t.put(o.B, &tree{x: l, want: etxx.Dump(l, true), doc: r.doc, made: "lambda of " + r.made, owner: t.id,
				how: append(append([]string{}, r.how...), "lm")})
		}
		return
	}
	parts := etxx.Parts(r.x)
	if len(parts) == 0 {
		return
	}
	n := mod(o.C, len(parts))
	if o.C == 0 {
		n = 0
	}
	p := parts[n]
	what += fmt.Sprintf(", part %q (%s)", p.Path, p.Type)
	shared := r.owner < 0 && t.id >= 0
	switch o.K {
	case "fs":
		if p.CanDo&etxx.CanPrint == 0 {
			return
		}
		a := p.Print()
		t.reads = append(t.reads, &reading{r.doc, r.how, n, "fs", a, what})
		if shared {
			return
		}
		if b := p.Print(); a != b {
			fail("print-differs", "%s: printing twice gives\n%.300s\nand\n%.300s", what, a, b)
		}
	case "ch":
		if p.CanDo&etxx.CanList == 0 {
			return
		}
		type listed struct {
			p    etxx.Part
			got  string
			what string
		}
		var done []listed
		var l *etxx.List
		for k := 0; k < 6; k++ { // this one and others next to it
			q := parts[(n+k)%len(parts)]
			if q.CanDo&etxx.CanList == 0 {
				continue
			}
			got, ql := q.Children()
			what := fmt.Sprintf("thread %d, tree of %s, part %q (%s)", t.id, r.made, q.Path, q.Type)
			t.hold(ql, what)
			t.reads = append(t.reads, &reading{r.doc, r.how, (n + k) % len(parts), "ch", got, what})
			done = append(done, listed{q, got, what})
			if k == 0 {
				l = ql
			}
		}
		if o.B&1 != 0 {
			// A list is the caller's: overwritten and extended at once, or later on.
			if t.rng.Intn(2) == 0 {
				l.Overwrite()
			}
			for _, h := range t.lists {
				if t.rng.Intn(4) == 0 {
					h.l.Overwrite()
				}
			}
			fault("children_overwritten")
		}
		t.checkLists()
		for _, x := range done {
			if again, _ := x.p.Children(); again != x.got {
				fail("children-differs", "%s: listing the children twice gives %.300s and %.300s", x.what, x.got, again)
			}
		}
	case "cl":
		if p.CanDo&etxx.CanClone == 0 {
			p = parts[0]
		}
		if p.CanDo&etxx.CanClone == 0 {
			return
		}
		c := t.clone(p, what)
		t.put(o.B, &tree{x: c, want: etxx.Dump(c, true), doc: r.doc, made: "clone of " + r.made, owner: t.id,
			how: append(append([]string{}, r.how...), "cl"+p.Path)})
	case "ra":
		for k := 0; k < 12 && k < len(parts); k++ {
			m := (n + k) % len(parts)
			for _, kind := range []string{"fs", "ch"} {
				if parts[m].CanDo&canRead[kind] != 0 {
					what := fmt.Sprintf("thread %d, tree of %s, part %q (%s)", t.id, r.made, parts[m].Path, parts[m].Type)
					var got string
					if kind == "ch" {
						var l *etxx.List
						got, l = parts[m].Children()
						t.hold(l, what)
					} else {
						got = read(parts[m], kind)
					}
					t.reads = append(t.reads, &reading{r.doc, r.how, m, kind, got, what})
				}
			}
		}
	case "ca":
		for _, p := range parts {
			if p.CanDo&etxx.CanClone != 0 {
				t.clone(p, what+" every part: "+p.Path+" ("+p.Type+")")
			}
		}
	}
}

// clone clones a part and checks the copy against it.
func (t *etxThread) clone(p etxx.Part, what string) etxx.Tree {
	before := etxx.Dump(p.Tree(), false)
	c := p.Clone()
	if c == nil {
		fail("clone-differs", "%s: the clone is nil", what)
	}
	if got := etxx.Dump(c, false); got != before {
		fail("clone-differs", "%s: %s", what, difference(got, before))
	}
	if at, bad := etxx.Foreign(c); bad {
		fail("clone-foreign", "%s: in the clone, the parent of %q lies outside the clone", what, at)
	}
	pa, pb, bad := etxx.Overlap(etxx.Merged(etxx.Regions(p.Tree())), etxx.Merged(etxx.Regions(c)))
	if bad {
		fail("clone-shared", "%s: %q of the original and %q of the clone share modifiable memory", what, pa, pb)
	}
	probe("cloned")
	return c
}

// ------------------------------------------------------------------ checks

func (d *etxEnv) same(r *tree, what string) {
	got := etxx.Dump(r.x, true)
	if got == r.want {
		return
	}
	class := "read-changed"
	if d.edits {
		class = "tree-changed"
	}
	fail(class, "%s is no longer what it was: %s", what, difference(got, r.want))
}

// difference shows where two dumps part.
func difference(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := i - 80
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		if from >= len(s) {
			return ""
		}
		s = s[from:]
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		return s
	}
	return fmt.Sprintf("at byte %d of the description: got ...%s, want ...%s", i, cut(got), cut(want))
}

// check looks at the whole run once all threads have ended.
func (d *etxEnv) check() {
	if n := simrt.LiveTarget(); n > 0 {
		fail("reader-leak", "%d background threads remain after all parse calls have returned: %v", n, simrt.BlockedInfo())
	}
	for _, r := range d.records {
		d.record(r)
	}
	for i, b := range d.slices {
		if !bytes.Equal(b, d.docs[i]) {
			fail("input-changed", "a parse changed the slice holding document %d", i)
		}
		// The owner of the slice uses it for something else from here on.
		etxx.Fill(b[:cap(b)], i)
	}
	d.checkReads()
	for _, r := range d.all {
		d.same(r, "tree of "+r.made)
	}
	d.overlaps()
}

// record checks one parse on its own and against parsing the same bytes from a
// string, undisturbed.
func (d *etxEnv) record(r *record) {
	if s := r.s; s != nil {
		if s.trouble != "" {
			failSoft("reader-use", "%s: %s", r.what, s.trouble)
		}
		if s.closed {
			failSoft("reader-closed", "%s: the reader was closed", r.what)
		}
		if s.fault != "" || s.past {
			d.failing(r)
			return
		}
		if r.x != nil && (s.off != s.skip+r.n || !s.seen && !s.peeked) {
			failSoft("reader-unread", "%s: the parse succeeded after %d of %d bytes, end seen: %v", r.what, s.off-s.skip, r.n, s.seen)
		}
	}
	if (r.x == nil) == (r.err == nil) {
		fail("parse-both", "%s: tree %v and error %v", r.what, r.x != nil, r.err)
	}
	g := d.gold(r.doc)
	d.compare(r, g, "parsing the same bytes from a string")
	d.marks(r)
}

// failing checks a parse whose stream fails.
func (d *etxEnv) failing(r *record) {
	s := r.s
	if r.x != nil {
		fail("fault-tree", "%s: the stream failed at byte %d of %d (%v) and a tree was returned", r.what, s.at, r.n, s.err)
	}
	if r.panicked || s.fault == "panic" {
		return
	}
	if r.err == nil {
		fail("fault-error", "%s: the stream failed at byte %d of %d (%v) and no error was returned", r.what, s.at, r.n, s.err)
	}
	if s.finished && !carries(r.err, s.err) {
		fail("fault-error", "%s: the stream failed at byte %d of %d with %q, which cannot be recovered from %q", r.what, s.at, r.n, s.err, r.err)
	}
	if s.finished {
		probe("failure_reported")
	}
}

// carries reports whether an error is found in another one's chain, itself and
// not by its own opinion.
func carries(err, target error) bool {
	for err != nil {
		if a, b := reflect.TypeOf(err), reflect.TypeOf(target); a == b {
			if a.Comparable() && err == target || !a.Comparable() && reflect.DeepEqual(err, target) {
				return true
			}
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if carries(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// gold is the outcome of parsing a document from a string, alone.
func (d *etxEnv) gold(doc int) *record {
	if g := d.golden[doc]; g != nil {
		return g
	}
	t := &etxThread{d: d, id: -1}
	g := t.parse(doc, Op{S: "str"})
	g.what = fmt.Sprintf("reference parse of document %d", doc)
	d.golden[doc] = g
	if (g.x == nil) == (g.err == nil) {
		fail("parse-both", "%s: tree %v and error %v", g.what, g.x != nil, g.err)
	}
	d.marks(g)
	if g.err != nil {
		probe("refused")
		if doc < len(d.plan.Docs) && len(d.plan.Docs[doc].Marks) > 0 {
			probe("refused_wellformed")
			if os.Getenv("SHOWREF") != "" {
				fmt.Fprintf(os.Stderr, "REFUSED %s\n%s\n----\n", g.errText, d.docs[doc])
			}
		}
	} else {
		probe("accepted")
	}
	return g
}

func (d *etxEnv) compare(r, g *record, than string) {
	if (r.x == nil) != (g.x == nil) {
		fail("parse-differs", "%s: tree %v, error %q; %s: tree %v, error %q", r.what, r.x != nil, r.errText, than, g.x != nil, g.errText)
	}
	if r.dump != g.dump {
		fail("parse-differs", "%s, compared with %s: %s", r.what, than, difference(r.dump, g.dump))
	}
	text := r.errText
	if r.name != "" && text != g.errText {
		text = strings.Replace(text, r.name+":", "", 1)
		probe("named_error")
	}
	if text != g.errText {
		fail("parse-differs", "%s: error %q; %s: error %q", r.what, r.errText, than, g.errText)
	}
	if r.name != "" && g.x != nil {
		for _, f := range r.files {
			if f != r.name {
				fail("name-wrong", "%s: the reader's name is %q, a position says %q", r.what, r.name, f)
			}
		}
		probe("named_tree")
	}
}

// marks compares the names and texts in a tree with those of its document.
func (d *etxEnv) marks(r *record) {
	if r.x == nil {
		return
	}
	var marks []string
	if r.doc < len(d.plan.Docs) {
		marks = d.plan.Docs[r.doc].Marks
	}
	exact := len(marks) > 0
	if !exact {
		// Not a document of the generator's making: the tree can hold nothing
		// that is not in it.
		marks = markRe.FindAllString(string(d.docs[r.doc]), -1)
	}
	want := map[string]int{}
	for _, m := range marks {
		want[m]++
	}
	for _, s := range dumpStrings(r) {
		for _, m := range markRe.FindAllString(s, -1) {
			want[m]--
			if want[m] < 0 {
				fail("marks", "%s: the tree holds %q more often than the document", r.what, m)
			}
		}
	}
	if exact {
		probe("marks_exact")
		for _, m := range marks {
			if want[m] > 0 && m != "" {
				fail("marks", "%s: the tree does not hold %q, which the document contains", r.what, m)
			}
		}
	}
}

// dumpStrings returns the quoted strings of a dump: the tree as it was when it
// was parsed.
func dumpStrings(r *record) []string {
	var out []string
	s := r.dump
	for {
		i := strings.IndexByte(s, '"')
		if i < 0 {
			return out
		}
		q, err := strconv.QuotedPrefix(s[i:])
		if err != nil {
			return out
		}
		u, _ := strconv.Unquote(q)
		out = append(out, u)
		s = s[i+len(q):]
	}
}

// step changes a tree and writes down how.
func (r *tree) step(kind string, some int, wild bool, seed int) {
	h := fmt.Sprintf("%s:%d:%t:%d", kind, some, wild, seed)
	r.x = remake(r.x, h)
	r.how = append(append([]string{}, r.how...), h)
}

// remake takes one of the steps that made a tree. It returns nil if the tree
// has no such part.
func remake(x etxx.Tree, h string) etxx.Tree {
	if h == "lm" {
		return etxx.Lambda(x)
	}
	if path, ok := strings.CutPrefix(h, "cl"); ok {
		for _, p := range etxx.Parts(x) {
			if p.CanDo&etxx.CanClone != 0 && p.Path == path {
				return p.Clone()
			}
		}
		return nil
	}
	f := strings.Split(h, ":")
	some, _ := strconv.Atoi(f[1])
	seed, _ := strconv.Atoi(f[3])
	rng := simrt.NewRand(uint64(seed))
	switch f[0] {
	case "ed":
		etxx.Scramble(x, some, f[2] == "true", rng.Intn)
	case "ta":
		etxx.Tangle(x, rng.Intn)
	case "ln":
		etxx.Relink(x)
	}
	return x
}

// rebuild makes a tree in the same steps as another one.
func rebuild(doc string, how []string) etxx.Tree {
	x, _ := etxx.ParseString(doc)
	for _, h := range how {
		if x == nil {
			break
		}
		x = remake(x, h)
	}
	return x
}

// read prints a part of a tree, or lists its children.
func read(p etxx.Part, kind string) string {
	if kind == "fs" {
		return p.Print()
	}
	s, _ := p.Children()
	return s
}

// held is a list of children that a thread has kept.
type held struct {
	l    *etxx.List
	what string
}

// hold keeps a list of children, instead of another one if there are many.
func (t *etxThread) hold(l *etxx.List, what string) {
	if len(t.lists) < 48 {
		t.lists = append(t.lists, held{l, what})
	} else {
		t.lists[t.rng.Intn(len(t.lists))] = held{l, what}
	}
}

// checkLists checks that the lists kept are as they were left.
func (t *etxThread) checkLists() {
	for _, h := range t.lists {
		if i := h.l.Changed(); i >= 0 {
			fail("children-list", "%s: element %d of the list of children handed out earlier has become another", h.what, i)
		}
	}
}

// checkReads compares what threads read from trees with what reading gives on
// undisturbed trees of the same making.
func (d *etxEnv) checkReads() {
	trees := map[string][]etxx.Part{}
	for _, rd := range d.reads {
		id := fmt.Sprint(rd.doc, rd.how)
		parts, ok := trees[id]
		if !ok {
			if len(trees) < 16 {
				if x := rebuild(string(d.docs[rd.doc]), rd.how); x != nil {
					parts = etxx.Parts(x)
				}
			}
			trees[id] = parts
		}
		if rd.part >= len(parts) {
			continue
		}
		if want := read(parts[rd.part], rd.kind); rd.got != want {
			fail(readClass[rd.kind], "%s: %s", rd.what, difference(rd.got, want))
		}
		if len(rd.how) > 0 && d.cfg("alone") != 0 {
			probe("reading_of_changed_tree")
		}
	}
}

var canRead = map[string]int{"fs": etxx.CanPrint, "ch": etxx.CanList}

var readClass = map[string]string{"fs": "print-differs", "ch": "children-differs"}

// overlaps looks for modifiable memory that two trees have in common.
func (d *etxEnv) overlaps() {
	type entry struct {
		r *tree
		m []etxx.Region
	}
	var es []entry
	for _, r := range d.all {
		es = append(es, entry{r, etxx.Merged(etxx.Regions(r.x))})
	}
	for i := range es {
		for j := 0; j < i; j++ {
			if pa, pb, bad := etxx.Overlap(es[i].m, es[j].m); bad {
				class := "overlap"
				if m := es[i].r.made + es[j].r.made; strings.Contains(m, "clone of") || strings.Contains(m, "lambda of") {
					class = "clone-shared"
				}
				fail(class, "%s (%s) and %s (%s) share modifiable memory", es[i].r.made, pa, es[j].r.made, pb)
			}
		}
	}
}

// ------------------------------------------------------------------ pristine

// final compares outcomes with those of processes that parsed nothing else.
func (d *etxEnv) final() {
	if d.cfg("alone") != 0 {
		d.alone()
	}
	if d.cfg("pristine") == 0 {
		return
	}
	seen := map[int]bool{}
	for _, r := range d.records {
		if r.s != nil && (r.s.fault != "" || r.s.past) || seen[r.doc] {
			continue
		}
		seen[r.doc] = true
		g := pristine(d.docs[r.doc], 1+d.plan.Seed%8)
		if g.Dump != d.golden[r.doc].dump || g.Err != d.golden[r.doc].errText {
			fail("pristine", "document %d, parsed in this process: error %q, tree %v; in a fresh process: error %q: %s", r.doc,
				d.golden[r.doc].errText, d.golden[r.doc].x != nil, g.Err, difference(d.golden[r.doc].dump, g.Dump))
		}
		probe("compared_with_fresh_process")
	}
}

// alone compares what threads read with what a process gets that makes the same
// tree and reads nothing else.
func (d *etxEnv) alone() {
	type key struct {
		doc int
		how string
	}
	groups := map[key][]*reading{}
	var order []key
	for _, rd := range d.reads {
		k := key{rd.doc, fmt.Sprint(rd.how)}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], rd)
	}
	rng := simrt.NewRand(d.plan.Seed)
	for n := 0; n < 2 && len(order) > 0; n++ {
		g := groups[order[rng.Intn(len(order))]]
		q := readQuery{Doc: d.docs[g[0].doc], How: g[0].how}
		for _, rd := range g {
			q.Parts = append(q.Parts, rd.part)
			q.Kinds = append(q.Kinds, rd.kind)
		}
		in, _ := json.Marshal(&q)
		var got []string
		fresh("reading", in, &got, 1+d.plan.Seed%8)
		if len(got) == 0 {
			continue
		}
		for i, rd := range g {
			if rd.got != got[i] {
				fail(readClass[rd.kind], "%s, compared with a fresh process: %s", rd.what, difference(rd.got, got[i]))
			}
		}
		probe("compared_with_fresh_process")
	}
}

type readQuery struct {
	Doc   []byte
	How   []string
	Parts []int
	Kinds []string
}

// readingCmd makes one tree and reads parts of it.
func readingCmd() {
	var q readQuery
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		fatal("%v", err)
	}
	out := []string{}
	golden(func() {
		x := rebuild(string(q.Doc), q.How)
		if x == nil {
			return
		}
		parts := etxx.Parts(x)
		for i, n := range q.Parts {
			s := ""
			if n < len(parts) {
				s = read(parts[n], q.Kinds[i])
			}
			out = append(out, s)
		}
	})
	json.NewEncoder(os.Stdout).Encode(out)
}

// golden runs something in the simulator, alone.
func golden(f func()) {
	p := &Plan{Prop: "E09", Engine: "golden", Sched: Sched{Policy: simrt.PolicySerial, Budget: 1 << 40}}
	scenarios["golden"] = func(e *env) { f() }
	if o := execute(p, false); o.Class != "" {
		fatal("%s: %s", o.Class, o.Msg)
	}
}

type pristineResult struct {
	Dump string
	Err  string
}

var pristineCache = map[[32]byte]*pristineResult{}

func pristine(doc []byte, init uint64) *pristineResult {
	k := sha256.Sum256(append(doc[:len(doc):len(doc)], byte(init)))
	if r := pristineCache[k]; r != nil {
		return r
	}
	r := new(pristineResult)
	fresh("golden", doc, r, init)
	if len(pristineCache) > 4096 {
		pristineCache = map[[32]byte]*pristineResult{}
	}
	pristineCache[k] = r
	return r
}

// fresh runs this program in a process of its own, in which tables are iterated
// over in the order of the given seed while packages are loaded.
func fresh(command string, in []byte, out any, init uint64) {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	cmd := exec.Command(exe, command)
	cmd.Stdin = bytes.NewReader(in)
	cmd.Env = append(os.Environ(), fmt.Sprintf("SIM_INIT=%d", init))
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err == nil {
		err = json.Unmarshal(b, out)
	}
	if err != nil {
		fatal("%s in a fresh process: %v\n%s", command, err, tail(stderr.String(), 2000))
	}
}

// goldenCmd parses the document on its standard input, and nothing else.
func goldenCmd() {
	doc, err := io.ReadAll(os.Stdin)
	if err != nil {
		fatal("%v", err)
	}
	var rec record
	golden(func() {
		rec.x, rec.err = etxx.ParseString(string(doc))
		rec.describe()
	})
	json.NewEncoder(os.Stdout).Encode(&pristineResult{rec.dump, rec.errText})
}
