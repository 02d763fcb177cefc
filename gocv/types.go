package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value: *Term for scalars, or one of the composites.
type Value interface{}

// SliceV is a slice header over a backing array reference.
type SliceV struct{ arr, off, ln, cp *Term }

// StructV is a struct value.
type StructV struct {
	t types.Type
	f []Value
}

// ArrayV is an array value: one SMT array per element leaf.
type ArrayV struct {
	t types.Type
	a []*Term
}

// TupleV is a multi-result.
type TupleV []Value

// AddrV is the address of a field, element or global that is not itself a reference.
type AddrV struct {
	kind     string // "field", "elem", "global"
	key      string // heap key prefix
	ref      *Term
	idx      *Term
	t        types.Type // type of the pointee
	inOpaque bool
	owner    string // a struct held by value in an external struct
}

// FuncV is a known function value.
type FuncV struct {
	fn    *ssa.Function
	bind  []Value
	bound bool
}

// IterV is a map or string iterator.
type IterV struct {
	id   string
	m    *Term
	mt   *types.Map
	key0 *Term // presence array at start
	str  *Term
}

const modPath = "github.com/qri-io/dataset"

type leaf struct {
	suf  string
	sort Sort
	t    types.Type
	role string // "", "arr", "off", "len", "cap"
}

func tname(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		if strings.HasPrefix(p.Path(), modPath) {
			return p.Name()
		}
		return p.Path()
	})
	s = strings.ReplaceAll(s, "interface {}", "any")
	s = strings.ReplaceAll(s, "interface{}", "any")
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") { // byte is uint8, rune is int32
		s = reByte.ReplaceAllString(s, "${1}uint8")
		s = reRune.ReplaceAllString(s, "${1}int32")
	}
	return s
}

var (
	reByte = regexp.MustCompile(`(^|[^A-Za-z0-9_.])byte\b`)
	reRune = regexp.MustCompile(`(^|[^A-Za-z0-9_.])rune\b`)
)

func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	if strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	// plain records of other packages are taken field by field
	if st, ok := n.Underlying().(*types.Struct); ok && n.NumMethods() <= 1 && st.NumFields() > 0 && st.NumFields() <= 4 {
		for i := 0; i < st.NumFields(); i++ {
			if _, basic := st.Field(i).Type().Underlying().(*types.Struct); basic || !st.Field(i).Exported() {
				return true
			}
		}
		return false
	}
	return true
}

func (e *Exec) leaves(t types.Type) []leaf {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []leaf{{"", e.basicSort(u), t, ""}}
	case *types.Slice:
		return []leaf{{"#arr", sInt, t, "arr"}, {"#off", sInt, t, "off"}, {"#len", sInt, t, "len"}, {"#cap", sInt, t, "cap"}}
	case *types.Struct:
		if isOpaqueStruct(t) {
			return []leaf{{"", Sort("O_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(tname(t))), t, ""}}
		}
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range e.leaves(f.Type()) {
				l.suf = "." + f.Name() + l.suf
				out = append(out, l)
			}
		}
		return out
	case *types.Interface:
		return []leaf{{"", sIface, t, ""}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leaf{{"", sInt, t, ""}}
	case *types.Array:
		var out []leaf
		for _, l := range e.leaves(u.Elem()) {
			out = append(out, leaf{"@" + l.suf, arrSort(sInt, l.sort), t, "array"})
		}
		return out
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range e.leaves(u.At(i).Type()) {
				l.suf = fmt.Sprintf(".%d%s", i, l.suf)
				out = append(out, l)
			}
		}
		return out
	}
	panic(unsupported("type " + t.String()))
}

func (e *Exec) basicSort(b *types.Basic) Sort {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return sBool
	case b.Info()&types.IsInteger != 0:
		return sInt
	case b.Info()&types.IsFloat != 0:
		return sReal
	case b.Info()&types.IsString != 0:
		return e.c.strSort()
	case b.Kind() == types.UnsafePointer, b.Kind() == types.UntypedNil:
		return sInt
	}
	panic(unsupported("basic type " + b.String()))
}

type unsup struct{ msg string }

func unsupported(s string) unsup { return unsup{s} }

// flatten turns a value of type t into its leaf terms.
func (e *Exec) flatten(v Value, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.arr, x.off, x.ln, x.cp}
	case *StructV:
		st := x.t.Underlying().(*types.Struct)
		var out []*Term
		for i := range x.f {
			out = append(out, e.flatten(x.f[i], st.Field(i).Type())...)
		}
		return out
	case *ArrayV:
		return x.a
	case TupleV:
		tt := t.(*types.Tuple)
		var out []*Term
		for i := range x {
			out = append(out, e.flatten(x[i], tt.At(i).Type())...)
		}
		return out
	case *FuncV:
		return []*Term{e.funcTerm(x)}
	case *AddrV:
		return []*Term{e.addrTerm(x)}
	case *IterV:
		return nil
	}
	panic(unsupported(fmt.Sprintf("flatten %T", v)))
}

func (e *Exec) unflatten(t types.Type, ts []*Term) Value {
	v, n := e.unfl(t, ts)
	if n != len(ts) {
		panic(fmt.Sprintf("unflatten %s: %d of %d", t, n, len(ts)))
	}
	return v
}

func (e *Exec) unfl(t types.Type, ts []*Term) (Value, int) {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}, 4
	case *types.Struct:
		if isOpaqueStruct(t) {
			return ts[0], 1
		}
		s := &StructV{t: t}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			v, k := e.unfl(u.Field(i).Type(), ts[n:])
			s.f = append(s.f, v)
			n += k
		}
		return s, n
	case *types.Array:
		n := len(e.leaves(u.Elem()))
		return &ArrayV{t, ts[:n]}, n
	case *types.Tuple:
		var out TupleV
		n := 0
		for i := 0; i < u.Len(); i++ {
			v, k := e.unfl(u.At(i).Type(), ts[n:])
			out = append(out, v)
			n += k
		}
		return out, n
	}
	if x, ok := e.funcs[ts[0]]; ok {
		return x, 1
	}
	if x, ok := e.addrs[ts[0]]; ok {
		return x, 1
	}
	return ts[0], 1
}

func (e *Exec) funcTerm(f *FuncV) *Term {
	for t, g := range e.funcs {
		if g == f {
			return t
		}
	}
	if len(f.bind) == 0 {
		for t, g := range e.funcs {
			if g.fn == f.fn && len(g.bind) == 0 {
				return t
			}
		}
	}
	t := e.c.Fresh("fn", sInt)
	e.assumeRaw(e.c.Lt(e.c.Int(0), t))
	e.funcs[t] = f
	return t
}

func (e *Exec) addrTerm(a *AddrV) *Term {
	args := []*Term{}
	if a.ref != nil {
		args = append(args, a.ref)
	}
	if a.idx != nil {
		args = append(args, a.idx)
	}
	t := e.c.App("addr:"+a.kind+":"+a.key, sInt, args...)
	e.assumeRaw(e.c.Lt(e.c.Int(0), t))
	e.addrs[t] = a
	e.addrEsc[tname(a.t)] = true
	return t
}

// zero gives the zero value of a type.
func (e *Exec) zero(t types.Type) Value {
	var ts []*Term
	for _, l := range e.leaves(t) {
		ts = append(ts, e.zeroLeaf(l))
	}
	return e.unflatten(t, ts)
}

func (e *Exec) zeroLeaf(l leaf) *Term {
	if strings.HasPrefix(string(l.sort), "(Array") {
		_, v := splitArr(l.sort)
		el := l.t.Underlying().(*types.Array).Elem()
		for _, x := range e.leaves(el) {
			if l.suf == "@"+x.suf || strings.HasSuffix(l.suf, "@"+x.suf) && x.sort == v {
				return e.c.ConstArr(l.sort, e.zeroLeaf(x))
			}
		}
		return e.c.ConstArr(l.sort, e.zeroSort(v))
	}
	return e.zeroSort(l.sort)
}

func (e *Exec) zeroSort(s Sort) *Term {
	switch s {
	case sInt:
		return e.c.Int(0)
	case sBool:
		return e.c.False()
	case sReal:
		return e.c.RealLit("0.0")
	case sIface:
		return e.c.INil()
	case "Str", "String":
		return e.c.StrLit("")
	}
	return e.c.Const("zero:"+string(s), s)
}

// freshVal makes an unconstrained value of a type, with its type facts.
func (e *Exec) freshVal(prefix string, t types.Type) Value {
	var ts []*Term
	for _, l := range e.leaves(t) {
		ts = append(ts, e.c.Fresh(prefix+l.suf, l.sort))
	}
	v := e.unflatten(t, ts)
	e.typeFacts(v, t)
	return v
}

func intRange(b *types.Basic) (string, string, bool) {
	switch b.Kind() {
	case types.Int8:
		return "-128", "127", true
	case types.Uint8:
		return "0", "255", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Uint16:
		return "0", "65535", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Int, types.Int64:
		return "-9223372036854775808", "9223372036854775807", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	}
	return "", "", false
}

// typeFacts assumes what Go's type system guarantees about a loaded or fresh value.
func (e *Exec) typeFacts(v Value, t types.Type) {
	ls := e.leaves(t)
	ts := e.flatten(v, t)
	for i, l := range ls {
		x := ts[i]
		if x.bound {
			continue
		}
		if l.role == "arr" {
			if !e.factDone[x] || !e.factDone[ts[i+2]] {
				e.sliceFacts(ts[i], ts[i+1], ts[i+2], ts[i+3])
			}
			e.factDone[x] = true
			e.factDone[ts[i+2]] = true
			continue
		}
		if l.role != "" || e.factDone[x] || x.num != nil || x.kind == 'l' {
			continue
		}
		e.factDone[x] = true
		e.leafFacts(x, l.t)
	}
}

func (e *Exec) sliceFacts(arr, off, ln, cp *Term) {
	c := e.c
	z := c.Int(0)
	e.assumeRaw(c.And(c.Le(z, arr), c.Lt(arr, e.st.next), c.Le(z, off), c.Le(z, ln), c.Le(ln, cp),
		c.Le(cp, c.mk('n', "9223372036854775807", sInt, nil)),
		c.Implies(c.Eq(arr, z), c.And(c.Eq(off, z), c.Eq(ln, z), c.Eq(cp, z)))))
	e.baseFacts(arr)
}

// baseFacts: a reference read from the heap at function entry existed at function entry.
func (e *Exec) baseFacts(x *Term) {
	if x.bound {
		return
	}
	for _, b := range e.baseReads(x, 0) {
		if b != x && !e.factDone[b] {
			e.factDone[b] = true
			e.assumeRaw(e.c.And(e.c.Le(e.c.Int(0), b), e.c.Lt(b, e.c.Const("alloc!0", sInt))))
		}
	}
}

func (e *Exec) baseReads(x *Term, depth int) []*Term {
	c := e.c
	if depth > 12 || x.kind != 'o' {
		return nil
	}
	switch x.op {
	case "ite":
		return append(e.baseReads(x.args[1], depth+1), e.baseReads(x.args[2], depth+1)...)
	case "select":
		var out []*Term
		for _, h := range e.baseArrays(x.args[0], depth+1) {
			out = append(out, c.Select(h, x.args[1]))
		}
		return out
	}
	return nil
}

func (e *Exec) baseArrays(h *Term, depth int) []*Term {
	if depth > 40 {
		return nil
	}
	if h.kind == 'c' {
		if strings.HasPrefix(h.op, "h0:") || strings.HasPrefix(h.op, "|h0:") {
			return []*Term{h}
		}
		if b := e.baseOf[h]; b != nil {
			return e.baseArrays(b, depth+1)
		}
		return nil
	}
	if h.kind != 'o' {
		return nil
	}
	switch h.op {
	case "store":
		return e.baseArrays(h.args[0], depth+1)
	case "ite":
		return append(e.baseArrays(h.args[1], depth+1), e.baseArrays(h.args[2], depth+1)...)
	case "select":
		var out []*Term
		for _, b := range e.baseArrays(h.args[0], depth+1) {
			out = append(out, e.c.Select(b, h.args[1]))
		}
		return out
	}
	return nil
}

func (e *Exec) leafFacts(x *Term, t types.Type) {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			if x.kind == 'o' && (x.op == "+" || x.op == "-" || x.op == "*") {
				return
			}
			lo, hi, ok := intRange(u)
			if ok {
				e.assumeRaw(c.And(c.Le(bigLit(c, lo), x), c.Le(x, bigLit(c, hi))))
			}
		}
		if u.Info()&types.IsString != 0 && !c.smtStr {
			// lengths are stated where used
		}
	case *types.Pointer, *types.Map:
		if x.kind == 'o' && x.op == "+" {
			return
		}
		e.assumeRaw(c.And(c.Le(c.Int(0), x), c.Lt(x, e.st.next)))
		e.baseFacts(x)
	case *types.Chan, *types.Signature:
		e.assumeRaw(c.Le(c.Int(0), x))
	case *types.Interface:
		// references inside boxes are constrained on unboxing
	}
}

// ---- heap access ----

func (e *Exec) heapGet(st *State, key string, sort Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	e.keySort[key] = sort
	return e.c.Const("h0:"+key, sort)
}

func (e *Exec) heapSet(key string, t *Term) {
	e.keySort[key] = t.sort
	e.st.heap[key] = t
}

// structCanon maps a struct type to the name of the type that declares it, so that
// "type _x X" and X share their field heaps.
var structCanon = map[*types.Struct]string{}

func structKey(t types.Type) string {
	if st, ok := t.Underlying().(*types.Struct); ok {
		if n, ok := structCanon[st]; ok {
			return "F:" + n
		}
	}
	return "F:" + tname(t)
}
func elemKey(t types.Type) string { return "E:" + tname(t) }
func cellKey(t types.Type) string { return "C:" + tname(t) }

// ptrTarget tells where a pointer of pointee type t points.
func (e *Exec) deref(p Value, t types.Type) *AddrV {
	switch x := p.(type) {
	case *AddrV:
		return x
	case *Term:
		if a, ok := e.addrs[x]; ok {
			return a
		}
		if e.addrEsc[tname(t)] && !e.allowEsc {
			if !(x.kind == 'c' || x.kind == 'o') {
				panic(unsupported("dereference of a possibly interior pointer to " + tname(t)))
			}
		}
		switch t.Underlying().(type) {
		case *types.Struct:
			if isOpaqueStruct(t) {
				return &AddrV{kind: "field", key: cellKey(t), ref: x, t: t}
			}
			return &AddrV{kind: "field", key: structKey(t), ref: x, t: t}
		case *types.Array:
			return &AddrV{kind: "arrobj", key: elemKey(t.Underlying().(*types.Array).Elem()), ref: x, t: t}
		}
		return &AddrV{kind: "field", key: cellKey(t), ref: x, t: t}
	}
	panic(unsupported(fmt.Sprintf("dereference of %T", p)))
}

func (e *Exec) loadAddr(st *State, a *AddrV) Value {
	if isOpaqueStruct(a.t) && e.opaqueStored[tname(a.t)] {
		panic(unsupported("copy of a " + tname(a.t) + " whose fields were assigned"))
	}
	var ts []*Term
	if a.kind == "arrobj" {
		el := a.t.Underlying().(*types.Array).Elem()
		for _, l := range e.leaves(el) {
			h := e.heapGet(st, a.key+l.suf, arrSort(sInt, arrSort(sInt, l.sort)))
			ts = append(ts, e.c.Select(h, a.ref))
		}
		return &ArrayV{a.t, ts}
	}
	for _, l := range e.leaves(a.t) {
		switch a.kind {
		case "field":
			h := e.heapGet(st, a.key+l.suf, arrSort(sInt, l.sort))
			ts = append(ts, e.c.Select(h, a.ref))
		case "elem":
			h := e.heapGet(st, a.key+l.suf, arrSort(sInt, arrSort(sInt, l.sort)))
			ts = append(ts, e.c.Select(e.c.Select(h, a.ref), a.idx))
		case "fielem": // element of an array-valued field
			panic(unsupported("array field element"))
		case "global":
			ts = append(ts, e.heapGet(st, a.key+l.suf, l.sort))
		}
	}
	v := e.unflatten(a.t, ts)
	e.typeFacts(v, a.t)
	return v
}

func (e *Exec) storeAddr(a *AddrV, v Value) {
	if a.kind == "arrobj" {
		av := v.(*ArrayV)
		el := a.t.Underlying().(*types.Array).Elem()
		for i, l := range e.leaves(el) {
			h := e.heapGet(e.st, a.key+l.suf, arrSort(sInt, arrSort(sInt, l.sort)))
			e.heapSet(a.key+l.suf, e.c.Store(h, a.ref, av.a[i]))
			e.noteWrite(a.key+l.suf, a.ref)
		}
		return
	}
	if a.owner != "" {
		if e.opaqueStored == nil {
			e.opaqueStored = map[string]bool{}
		}
		e.opaqueStored[a.owner] = true
	}
	ts := e.flatten(v, a.t)
	for i, l := range e.leaves(a.t) {
		k := a.key + l.suf
		switch a.kind {
		case "field":
			h := e.heapGet(e.st, k, arrSort(sInt, l.sort))
			e.heapSet(k, e.c.Store(h, a.ref, ts[i]))
			e.noteWrite(k, a.ref)
		case "elem":
			h := e.heapGet(e.st, k, arrSort(sInt, arrSort(sInt, l.sort)))
			e.heapSet(k, e.c.Store(h, a.ref, e.c.Store(e.c.Select(h, a.ref), a.idx, ts[i])))
			e.noteWrite(k, a.ref)
		case "global":
			e.heapGet(e.st, k, l.sort)
			e.heapSet(k, ts[i])
			e.noteWrite(k, nil)
		}
	}
}

// ---- maps ----

func (e *Exec) mapKeySort(m *types.Map) Sort {
	ls := e.leaves(m.Key())
	if len(ls) != 1 {
		panic(unsupported("map key type " + m.Key().String()))
	}
	return ls[0].sort
}

func mapKey(m *types.Map) string { return "M:" + tname(m.Key()) + ":" + tname(m.Elem()) }

func (e *Exec) mapPres(st *State, m *types.Map) *Term {
	return e.heapGet(st, mapKey(m)+"!p", arrSort(sInt, arrSort(e.mapKeySort(m), sBool)))
}
func (e *Exec) mapVals(st *State, m *types.Map) []*Term {
	var out []*Term
	for _, l := range e.leaves(m.Elem()) {
		out = append(out, e.heapGet(st, mapKey(m)+"!v"+l.suf, arrSort(sInt, arrSort(e.mapKeySort(m), l.sort))))
	}
	return out
}
func (e *Exec) mapLen(st *State, m *types.Map) *Term {
	return e.heapGet(st, mapKey(m)+"!n", arrSort(sInt, sInt))
}

// mapHas tells whether a key is present (false for the nil map).
func (e *Exec) mapHas(st *State, m *types.Map, ref, k *Term) *Term {
	return e.c.And(e.c.Not(e.c.Eq(ref, e.c.Int(0))), e.c.Select(e.c.Select(e.mapPres(st, m), ref), k))
}

func (e *Exec) mapGet(st *State, m *types.Map, ref, k *Term) Value {
	has := e.mapHas(st, m, ref, k)
	var ts []*Term
	ls := e.leaves(m.Elem())
	for i, h := range e.mapVals(st, m) {
		ts = append(ts, e.c.Ite(has, e.c.Select(e.c.Select(h, ref), k), e.zeroLeaf(ls[i])))
	}
	v := e.unflatten(m.Elem(), ts)
	e.typeFacts(v, m.Elem())
	return v
}

func (e *Exec) mapSet(m *types.Map, ref, k *Term, v Value) {
	c := e.c
	mk := mapKey(m)
	p := e.mapPres(e.st, m)
	had := c.Select(c.Select(p, ref), k)
	n := e.mapLen(e.st, m)
	e.heapSet(mk+"!n", c.Store(n, ref, c.Add(c.Select(n, ref), c.Ite(had, c.Int(0), c.Int(1)))))
	e.noteWrite(mk+"!n", ref)
	e.heapSet(mk+"!p", c.Store(p, ref, c.Store(c.Select(p, ref), k, c.True())))
	e.noteWrite(mk+"!p", ref)
	ts := e.flatten(v, m.Elem())
	for i, l := range e.leaves(m.Elem()) {
		h := e.heapGet(e.st, mk+"!v"+l.suf, arrSort(sInt, arrSort(e.mapKeySort(m), l.sort)))
		e.heapSet(mk+"!v"+l.suf, c.Store(h, ref, c.Store(c.Select(h, ref), k, ts[i])))
		e.noteWrite(mk+"!v"+l.suf, ref)
	}
}

func (e *Exec) mapDelete(m *types.Map, ref, k *Term) {
	c := e.c
	mk := mapKey(m)
	p := e.mapPres(e.st, m)
	had := c.Select(c.Select(p, ref), k)
	n := e.mapLen(e.st, m)
	e.heapSet(mk+"!n", c.Store(n, ref, c.Sub(c.Select(n, ref), c.Ite(had, c.Int(1), c.Int(0)))))
	e.noteWrite(mk+"!n", ref)
	e.heapSet(mk+"!p", c.Store(p, ref, c.Store(c.Select(p, ref), k, c.False())))
	e.noteWrite(mk+"!p", ref)
}
