// Package etxx gives the harness its view of parsed trees. It is compiled with
// race instrumentation, so that what the simulated clients do with trees and
// buffers is visible to the race detector.
package etxx

import (
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// Tree is a tree, or a part of one: a pointer to one of the package's structs.
type Tree = any

// ParseString calls the parser on a string.
func ParseString(s string) (Tree, error) { return wrap(etx.ParseString(s)) }

// ParseBytes calls the parser on a slice.
func ParseBytes(b []byte) (Tree, error) { return wrap(etx.ParseBytes(b)) }

// Parse calls the parser on a reader.
func Parse(r io.Reader) (Tree, error) { return wrap(etx.Parse(r)) }

func wrap(t *etx.AST, err error) (Tree, error) {
	if t == nil {
		return nil, err
	}
	return t, err
}

// Copy copies bytes as a client of the parser would.
func Copy(dst, src []byte) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	for i := 0; i < n; i++ {
		dst[i] = src[i]
	}
	return n
}

// Fill overwrites a buffer.
func Fill(dst []byte, seed int) {
	const junk = "zq = \"${(]}[{#\n/*//<<X\n"
	for i := range dst {
		dst[i] = junk[(i+seed)%len(junk)]
	}
}

var (
	astNodeType  = reflect.TypeOf(etx.ASTNode{})
	positionType = reflect.TypeOf(etx.Position{})
	nodeType     = reflect.TypeOf((*etx.Node)(nil)).Elem()
	floatType    = reflect.TypeOf(big.Float{})
	printerType  = reflect.TypeOf((*etx.FormattedStringer)(nil)).Elem()
	etxPath      = astNodeType.PkgPath()
)

// What is known about the types of trees, worked out before any thread runs.
type typeInfo struct {
	fields []fieldInfo
	name   string
	canDo  int
}

type fieldInfo struct {
	reflect.StructField
	skip bool
}

var infos = map[reflect.Type]*typeInfo{}

func init() {
	learn(reflect.TypeOf(etx.AST{}))
	learn(reflect.TypeOf(etx.Lambda{}))
}

func learn(t reflect.Type) {
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array:
		learn(t.Elem())
	case reflect.Map:
		learn(t.Key())
		learn(t.Elem())
	case reflect.Struct:
		if infos[t] == nil {
			infos[t] = makeInfo(t)
			for _, f := range infos[t].fields {
				learn(f.Type)
			}
		}
	}
}

func info(t reflect.Type) *typeInfo {
	if i := infos[t]; i != nil {
		return i
	}
	return makeInfo(t)
}

func makeInfo(t reflect.Type) *typeInfo {
	i := &typeInfo{name: t.Name()}
	for n := 0; n < t.NumField(); n++ {
		f := t.Field(n)
		i.fields = append(i.fields, fieldInfo{f, skip(t, f)})
	}
	pt := reflect.PointerTo(t)
	if m, ok := pt.MethodByName("Clone"); ok && m.Type.NumIn() == 1 && m.Type.NumOut() == 1 && m.Type.Out(0) == pt {
		i.canDo |= CanClone
	}
	if pt.Implements(printerType) {
		i.canDo |= CanPrint
	}
	if pt.Implements(nodeType) || t == reflect.TypeOf(etx.AST{}) {
		i.canDo |= CanList
	}
	return i
}

// skip reports whether a field is not part of the content of a tree.
func skip(t reflect.Type, f reflect.StructField) bool {
	if t == astNodeType && f.Name == "Parent" {
		return true
	}
	return !f.IsExported() && t.PkgPath() == etxPath
}

type key struct {
	p uintptr
	t reflect.Type
}

// walk visits every struct of a tree, depth first.
func walk(v reflect.Value, path []byte, f func(v reflect.Value, path []byte)) {
	walkDepth(v, path, 0, func(v reflect.Value, path []byte, depth int) { f(v, path) })
}

// label names the nth place of a tree, by its path unless that is long.
func label(path []byte, n int) string {
	if len(path) < 400 {
		return string(path)
	}
	return fmt.Sprintf("%s...#%d", path[:60], n)
}

func walkDepth(v reflect.Value, path []byte, depth int, f func(v reflect.Value, path []byte, depth int)) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && v.Type().Elem() != floatType {
			walkDepth(v.Elem(), path, depth, f)
		}
	case reflect.Slice, reflect.Array:
		k := v.Type().Elem().Kind()
		if k != reflect.Pointer && k != reflect.Struct && k != reflect.Slice {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walkDepth(v.Index(i), strconv.AppendInt(append(path, '.'), int64(i), 10), depth, f)
		}
	case reflect.Struct:
		t := v.Type()
		if t == astNodeType || t == positionType {
			return
		}
		f(v, path, depth)
		fs := info(t).fields
		for i := range fs {
			if !fs[i].skip {
				walkDepth(v.Field(i), append(append(path, '.'), fs[i].Name...), depth+1, f)
			}
		}
	}
}

// Dump writes out a tree: contents and positions, and with parents the place
// each node's parent has in the same tree.
func Dump(x Tree, parents bool) string {
	d := &dumper{parents: parents}
	if parents {
		d.paths = map[key]string{}
		walk(reflect.ValueOf(x), nil, func(v reflect.Value, path []byte) {
			if v.CanAddr() {
				d.paths[key{v.Addr().Pointer(), v.Type()}] = "@" + label(path, len(d.paths))
			}
		})
	}
	d.value(reflect.ValueOf(x))
	return string(d.b)
}

type dumper struct {
	b       []byte
	parents bool
	paths   map[key]string
}

func (d *dumper) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			d.b = append(d.b, "nil"...)
			return
		}
		d.b = append(d.b, '&')
		d.value(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			d.b = append(d.b, "nil"...)
			return
		}
		fallthrough
	case reflect.Array:
		d.b = append(d.b, '[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.b = append(d.b, ' ')
			}
			d.value(v.Index(i))
		}
		d.b = append(d.b, ']')
	case reflect.Struct:
		t := v.Type()
		if t == floatType && v.CanAddr() && v.Addr().CanInterface() {
			x := v.Addr().Interface().(*big.Float)
			d.b = x.Append(d.b, 'p', 0)
			d.b = append(d.b, '/')
			d.b = strconv.AppendUint(d.b, uint64(x.Prec()), 10)
			d.b = append(d.b, x.Mode().String()...)
			return
		}
		if t == positionType {
			p := v
			for i := 0; i < p.NumField(); i++ {
				if i > 0 {
					d.b = append(d.b, ':')
				}
				d.value(p.Field(i))
			}
			return
		}
		ti := info(t)
		d.b = append(d.b, ti.name...)
		d.b = append(d.b, '{')
		for i := range ti.fields {
			f := &ti.fields[i]
			if t == astNodeType && f.Name == "Parent" {
				if d.parents {
					d.b = append(d.b, '^')
					d.b = append(d.b, d.place(v.Field(i))...)
				}
				continue
			}
			if f.skip || f.Type != positionType && f.Type != astNodeType && (!d.parents && blank(v.Field(i)) || d.parents && v.Field(i).IsZero()) || f.Type.Kind() == reflect.Slice && v.Field(i).Len() == 0 {
				continue
			}
			if f.Type != astNodeType {
				d.b = append(d.b, ' ')
				d.b = append(d.b, f.Name...)
				d.b = append(d.b, '=')
			}
			d.value(v.Field(i))
		}
		d.b = append(d.b, '}')
	case reflect.String:
		d.b = strconv.AppendQuote(d.b, v.String())
	case reflect.Bool:
		d.b = strconv.AppendBool(d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b = strconv.AppendInt(d.b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.b = strconv.AppendUint(d.b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		d.b = strconv.AppendFloat(d.b, v.Float(), 'g', -1, 64)
	case reflect.Interface:
		if v.IsNil() {
			d.b = append(d.b, "nil"...)
			return
		}
		d.value(v.Elem())
	case reflect.Map:
		d.b = append(d.b, "map"...)
		var ks []string
		it := v.MapRange()
		for it.Next() {
			e := &dumper{parents: d.parents, paths: d.paths}
			e.value(it.Key())
			e.b = append(e.b, ':')
			e.value(it.Value())
			ks = append(ks, string(e.b))
		}
		sort.Strings(ks)
		d.b = append(d.b, strings.Join(ks, " ")...)
	default:
		d.b = append(d.b, v.Kind().String()...)
	}
}

// blank reports whether a part of a tree holds nothing, links aside.
func blank(v reflect.Value) bool {
	if v.Kind() != reflect.Struct || v.IsZero() {
		return v.IsZero()
	}
	t := v.Type()
	fs := info(t).fields
	for i := range fs {
		if !fs[i].skip && !blank(v.Field(i)) {
			return false
		}
	}
	return true
}

// place describes which node of the tree a parent link names.
func (d *dumper) place(v reflect.Value) string {
	if v.IsNil() {
		return "nil"
	}
	e := v.Elem()
	if e.Kind() != reflect.Pointer || e.IsNil() {
		return "odd"
	}
	if p, ok := d.paths[key{e.Pointer(), e.Type().Elem()}]; ok {
		return p
	}
	return "foreign"
}

// Foreign returns the place of a node whose parent lies outside the tree, and
// whether there is one.
func Foreign(x Tree) (string, bool) {
	own := map[key]bool{}
	walk(reflect.ValueOf(x), nil, func(v reflect.Value, path []byte) {
		if v.CanAddr() {
			own[key{v.Addr().Pointer(), v.Type()}] = true
		}
	})
	at, found := "", false
	walk(reflect.ValueOf(x), nil, func(v reflect.Value, path []byte) {
		f := v.FieldByName("Parent")
		if found || !f.IsValid() || f.Kind() != reflect.Interface || f.IsNil() {
			return
		}
		e := f.Elem()
		if e.Kind() == reflect.Pointer && !e.IsNil() && !own[key{e.Pointer(), e.Type().Elem()}] {
			at, found = string(path), true
		}
	})
	return at, found
}

// Files returns the distinct file names in the positions of a tree, those of
// nodes without a position left out.
func Files(x Tree) []string {
	seen := map[string]bool{}
	walk(reflect.ValueOf(x), nil, func(v reflect.Value, path []byte) {
		f := v.FieldByName("Pos")
		if f.IsValid() && f.Type() == positionType && !f.IsZero() {
			seen[f.FieldByName("Filename").String()] = true
		}
	})
	var out []string
	for s := range seen {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// Unname clears the file name in all positions.
func Unname(x Tree) {
	walk(reflect.ValueOf(x), nil, func(v reflect.Value, path []byte) {
		f := v.FieldByName("Pos")
		if f.IsValid() && f.Type() == positionType && f.CanSet() {
			f.FieldByName("Filename").SetString("")
		}
	})
}

// Strings returns every string the tree holds, in a fixed order.
func Strings(x Tree) []string {
	var out []string
	walk(reflect.ValueOf(x), nil, func(v reflect.Value, path []byte) {
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			if skip(t, t.Field(i)) {
				continue
			}
			switch {
			case f.Kind() == reflect.String:
				out = append(out, f.String())
			case f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.String:
				for j := 0; j < f.Len(); j++ {
					out = append(out, f.Index(j).String())
				}
			}
		}
	})
	return out
}

// Region is a piece of modifiable memory of a tree.
type Region struct {
	Lo, Hi uintptr
	Path   string
}

// Regions lists the modifiable memory reachable from a tree, parent links not
// followed, in order of address.
func Regions(x Tree) []Region {
	var out []Region
	var visit func(v reflect.Value, path []byte)
	add := func(p uintptr, n uintptr, path []byte) {
		if p != 0 && n > 0 {
			out = append(out, Region{p, p + n, label(path, len(out))})
		}
	}
	visit = func(v reflect.Value, path []byte) {
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				add(v.Pointer(), v.Type().Elem().Size(), path)
				visit(v.Elem(), path)
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			add(v.Pointer(), v.Type().Elem().Size()*uintptr(v.Cap()), path)
			fallthrough
		case reflect.Array:
			switch v.Type().Elem().Kind() {
			case reflect.Pointer, reflect.Struct, reflect.Slice, reflect.Interface, reflect.Map:
				for i := 0; i < v.Len(); i++ {
					visit(v.Index(i), strconv.AppendInt(append(path, '.'), int64(i), 10))
				}
			}
		case reflect.Map:
			if !v.IsNil() {
				add(v.Pointer(), 1, path)
			}
		case reflect.Interface:
			if !v.IsNil() {
				visit(v.Elem(), path)
			}
		case reflect.Struct:
			t := v.Type()
			fs := info(t).fields
			for i := range fs {
				if !fs[i].skip {
					visit(v.Field(i), append(append(path, '.'), fs[i].Name...))
				}
			}
		}
	}
	visit(reflect.ValueOf(x), nil)
	sort.Slice(out, func(i, j int) bool { return out[i].Lo < out[j].Lo })
	return out
}

// Merged joins regions of one tree that lie within each other, so that a sorted
// list of disjoint regions is left.
func Merged(in []Region) []Region {
	var out []Region
	for _, r := range in {
		if n := len(out); n > 0 && r.Lo < out[n-1].Hi {
			if r.Hi > out[n-1].Hi {
				out[n-1].Hi = r.Hi
			}
			continue
		}
		out = append(out, r)
	}
	return out
}

// Overlap finds memory that two merged lists of regions have in common.
func Overlap(a, b []Region) (pa, pb string, found bool) {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i].Lo < b[j].Hi && b[j].Lo < a[i].Hi {
			return a[i].Path, b[j].Path, true
		}
		if a[i].Hi <= b[j].Hi {
			i++
		} else {
			j++
		}
	}
	return "", "", false
}

// Part is a part of a tree.
type Part struct {
	v     reflect.Value // addressable struct
	Path  string
	Type  string
	CanDo int // what it offers
}

// What parts offer.
const (
	CanClone = 1 << iota
	CanPrint
	CanList
)

// Parts lists the parts of a tree that offer anything, the tree itself first.
func Parts(x Tree) []Part {
	var out []Part
	bad := map[int]bool{} // by index in out
	type level struct{ depth, part int }
	var open []level // the parts around the current one
	n := 0
	walkDepth(reflect.ValueOf(x), nil, 0, func(v reflect.Value, path []byte, depth int) {
		for len(open) > 0 && open[len(open)-1].depth >= depth {
			open = open[:len(open)-1]
		}
		if !v.CanAddr() {
			return
		}
		n++
		ti := info(v.Type())
		p := Part{v: v, Path: label(path, n), Type: ti.name, CanDo: ti.canDo}
		// Printing an object type that holds comments or empty lines runs into
		// endless recursion (see DESIGN.md): not printed, nor what contains it.
		if it, ok := v.Addr().Interface().(*etx.TypeObjectItem); ok && it.Type.Ident == nil && it.Type.Func == nil {
			p.CanDo &^= CanPrint
			for _, l := range open {
				bad[l.part] = true
			}
		}
		if p.CanDo != 0 {
			open = append(open, level{depth, len(out)})
			out = append(out, p)
		}
	})
	for i := range out {
		if bad[i] {
			out[i].CanDo &^= CanPrint
		}
	}
	return out
}

// Tree returns the part as a tree.
func (p Part) Tree() Tree { return p.v.Addr().Interface() }

// Clone clones a part.
func (p Part) Clone() Tree {
	r := p.v.Addr().MethodByName("Clone").Call(nil)[0]
	if r.IsNil() {
		return nil
	}
	return r.Interface()
}

// Print returns the part's formatted text, or what it panicked with.
func (p Part) Print() (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = "panic"
		}
	}()
	return p.Tree().(etx.FormattedStringer).FormattedString()
}

// Children returns a description of the part's list of children, and the list.
func (p Part) Children() (string, *List) {
	l := p.Tree().(interface{ Children() []etx.Node }).Children()
	var b []byte
	for _, n := range l {
		v := reflect.ValueOf(n)
		b = append(b, v.Type().String()...)
		if v.Kind() == reflect.Pointer && !v.IsNil() {
			f := v.Elem().FieldByName("Pos")
			if f.IsValid() && f.Type() == positionType {
				d := dumper{b: b}
				d.value(f)
				b = d.b
			}
		} else {
			b = append(b, " nil"...)
		}
		b = append(b, ';')
	}
	return string(b), &List{l, addresses(l)}
}

// List is a list of children in the hands of a caller.
type List struct {
	l  []etx.Node
	at []uintptr
}

func addresses(l []etx.Node) []uintptr {
	var at []uintptr
	for _, n := range l {
		v := reflect.ValueOf(n)
		if v.Kind() == reflect.Pointer {
			at = append(at, v.Pointer())
		} else {
			at = append(at, 0)
		}
	}
	return at
}

// Overwrite overwrites the list and the space behind it.
func (l *List) Overwrite() {
	all := l.l[:cap(l.l)]
	for i := range all {
		all[i] = &etx.Ident{}
	}
	l.at = addresses(l.l)
}

// Changed tells which element is no longer the one that was listed, or -1.
func (l *List) Changed() int {
	for i, p := range addresses(l.l) {
		if p != l.at[i] {
			return i
		}
	}
	return -1
}

// Relink recomputes the parent links of a tree, or sets those of a part.
func Relink(x Tree) {
	if t, ok := x.(*etx.AST); ok {
		t.UpdateParentRefs()
		return
	}
	n, ok := x.(etx.Node)
	if !ok {
		return
	}
	walk(reflect.ValueOf(x), nil, func(v reflect.Value, path []byte) {
		if f := v.FieldByName("Parent"); f.IsValid() && f.CanSet() && f.Type() == nodeType {
			f.Set(reflect.ValueOf(n))
		}
	})
}

// Tangle sets the parent link of every node by hand, to some node of the tree.
func Tangle(x Tree, rnd func(n int) int) {
	var nodes []etx.Node
	walk(reflect.ValueOf(x), nil, func(v reflect.Value, path []byte) {
		if v.CanAddr() {
			if n, ok := v.Addr().Interface().(etx.Node); ok {
				nodes = append(nodes, n)
			}
		}
	})
	walk(reflect.ValueOf(x), nil, func(v reflect.Value, path []byte) {
		if f := v.FieldByName("Parent"); f.IsValid() && f.CanSet() && f.Type() == nodeType && len(nodes) > 0 {
			f.Set(reflect.ValueOf(nodes[rnd(len(nodes))]))
		}
	})
}

// Scramble overwrites a tree: everything, or about one field in some. If wild it
// also takes nodes away.
func Scramble(x Tree, some int, wild bool, rnd func(n int) int) {
	var visit func(v reflect.Value)
	hit := func() bool { return some <= 1 || rnd(some) == 0 }
	visit = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			if f, ok := v.Interface().(*big.Float); ok {
				if hit() {
					// In place: the digits are overwritten where they are.
					f.Mul(f, big.NewFloat(3)).Neg(f)
				}
				return
			}
			visit(v.Elem())
			if wild && v.CanSet() && hit() && rnd(4) == 0 {
				v.SetZero()
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i))
			}
			if v.Len() > 1 && hit() {
				a, b := v.Index(0), v.Index(v.Len()-1)
				t := reflect.New(a.Type()).Elem()
				t.Set(a)
				a.Set(b)
				b.Set(t)
			}
			if wild && v.CanSet() && v.Len() > 0 && hit() {
				switch rnd(3) {
				case 0:
					v.SetLen(v.Len() - 1)
				case 1:
					v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
					v.SetLen(v.Len() - 1)
				}
			}
		case reflect.Struct:
			t := v.Type()
			for i := 0; i < t.NumField(); i++ {
				if t == astNodeType && t.Field(i).Name == "Parent" {
					if v.Field(i).CanSet() && hit() {
						v.Field(i).SetZero()
					}
					continue
				}
				if t.Field(i).IsExported() {
					visit(v.Field(i))
				}
			}
		case reflect.String:
			if v.CanSet() && hit() {
				v.SetString("changed" + strconv.Itoa(rnd(100)))
			}
		case reflect.Bool:
			if v.CanSet() && hit() {
				v.SetBool(!v.Bool())
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if v.CanSet() && hit() {
				v.SetInt(v.Int() + 7)
			}
		}
	}
	visit(reflect.ValueOf(x))
}

// Lambda builds a lambda out of parts of a parsed tree: lambdas are a part of
// the tree's vocabulary that the grammar does not reach.
func Lambda(x Tree) Tree {
	var l etx.Lambda
	got := false
	walk(reflect.ValueOf(x), nil, func(v reflect.Value, path []byte) {
		if !v.CanAddr() {
			return
		}
		switch n := v.Addr().Interface().(type) {
		case *etx.Comment:
			if l.Comment == nil {
				l.Comment = n.Clone()
			}
		case *etx.FuncParameter:
			l.Parameters = append(l.Parameters, &etx.LambdaParameter{ASTNode: etx.ASTNode{Pos: n.Pos}, Label: n.Label, Type: n.Type.Clone()})
		case *etx.Expr:
			if !got && (n.Left != nil || n.If != nil || n.Switch != nil) {
				l.Expr = *n.Clone()
				got = true
			}
		}
	})
	if !got {
		return nil
	}
	for _, p := range l.Parameters {
		p.Parent = &l
	}
	l.Expr.Parent = &l
	return &l
}
