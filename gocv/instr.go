package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) instr(fr *frame, in ssa.Instruction) {
	c := e.c
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		fr.vals[x] = e.allocZero(el)
	case *ssa.BinOp:
		fr.vals[x] = e.binop(x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.X.Type(), x.Y.Type(), x.Type(), x.Pos())
	case *ssa.UnOp:
		e.unop(fr, x)
	case *ssa.Call:
		vs := e.call(fr, &x.Call, x, x.Pos())
		switch len(vs) {
		case 0:
			fr.vals[x] = TupleV{}
		case 1:
			if _, ok := x.Type().(*types.Tuple); ok {
				fr.vals[x] = TupleV(vs)
			} else {
				fr.vals[x] = vs[0]
			}
		default:
			fr.vals[x] = TupleV(vs)
		}
	case *ssa.ChangeInterface:
		fr.vals[x] = e.val(fr, x.X)
	case *ssa.ChangeType:
		fr.vals[x] = e.retype(e.val(fr, x.X), x.Type())
	case *ssa.Convert:
		fr.vals[x] = e.convert(e.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.vals[x] = e.convert(e.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		fr.vals[x] = e.val(fr, x.Tuple).(TupleV)[x.Index]
	case *ssa.Field:
		v := e.val(fr, x.X)
		sv, ok := v.(*StructV)
		if !ok {
			// field of an opaque external struct
			st := x.X.Type().Underlying().(*types.Struct)
			fr.vals[x] = e.opaqueField(v.(*Term), x.X.Type(), st.Field(x.Field))
			return
		}
		fr.vals[x] = sv.f[x.Field]
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		st := pt.Underlying().(*types.Struct)
		p := e.val(fr, x.X)
		f := st.Field(x.Field)
		fr.vals[x] = e.fieldAddr(p, pt, f, x.Pos())
	case *ssa.Index:
		v := e.val(fr, x.X)
		i := e.val(fr, x.Index).(*Term)
		switch a := v.(type) {
		case *ArrayV:
			el := a.t.Underlying().(*types.Array).Elem()
			var ts []*Term
			for _, t := range a.a {
				ts = append(ts, c.Select(t, i))
			}
			fr.vals[x] = e.unflatten(el, ts)
		case *Term:
			e.check("index", c.And(c.Le(c.Int(0), i), c.Lt(i, e.strLen(a))), x.Pos())
			fr.vals[x] = e.strAt(a, i)
		default:
			panic(unsupported("index"))
		}
	case *ssa.IndexAddr:
		i := e.val(fr, x.Index).(*Term)
		switch a := e.val(fr, x.X).(type) {
		case *SliceV:
			el := x.X.Type().Underlying().(*types.Slice).Elem()
			e.check("index in range", c.And(c.Le(c.Int(0), i), c.Lt(i, a.ln)), x.Pos())
			fr.vals[x] = &AddrV{kind: "elem", key: elemKey(el), ref: a.arr, idx: c.Add(a.off, i), t: el}
		case *Term: // pointer to array
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			e.check("index in range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(at.Len()))), x.Pos())
			fr.vals[x] = &AddrV{kind: "elem", key: elemKey(at.Elem()), ref: a, idx: i, t: at.Elem()}
		default:
			panic(unsupported(fmt.Sprintf("indexaddr of %T", a)))
		}
	case *ssa.Lookup:
		k := e.val(fr, x.Index)
		switch mt := x.X.Type().Underlying().(type) {
		case *types.Map:
			ref := e.val(fr, x.X).(*Term)
			kt := e.flatten(k, mt.Key())
			if len(kt) != 1 {
				panic(unsupported("map key"))
			}
			v := e.mapGet(e.st, mt, ref, kt[0])
			if x.CommaOk {
				fr.vals[x] = TupleV{v, e.mapHas(e.st, mt, ref, kt[0])}
			} else {
				fr.vals[x] = v
			}
		default:
			s := e.val(fr, x.X).(*Term)
			i := k.(*Term)
			e.check("string index", c.And(c.Le(c.Int(0), i), c.Lt(i, e.strLen(s))), x.Pos())
			fr.vals[x] = e.strAt(s, i)
		}
	case *ssa.MakeChan:
		fr.vals[x] = e.alloc("chan")
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, b))
		}
		fr.vals[x] = &FuncV{fn: x.Fn.(*ssa.Function), bind: bs}
	case *ssa.MakeInterface:
		fr.vals[x] = e.box(e.val(fr, x.X), x.X.Type())
	case *ssa.MakeMap:
		fr.vals[x] = e.makeMap(x.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		ln := e.val(fr, x.Len).(*Term)
		cp := e.val(fr, x.Cap).(*Term)
		e.check("makeslice length", c.And(c.Le(c.Int(0), ln), c.Le(ln, cp)), x.Pos())
		fr.vals[x] = e.makeSlice(el, ln, cp)
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		ref := e.val(fr, x.Map).(*Term)
		e.check("assignment to nil map", c.Not(c.Eq(ref, c.Int(0))), x.Pos())
		kt := e.flatten(e.val(fr, x.Key), mt.Key())
		e.mapSet(mt, ref, kt[0], e.val(fr, x.Value))
	case *ssa.Range:
		e.iterN++
		it := &IterV{id: fmt.Sprintf("I:%s:%s", e.callPath, x.Name()+fr.fn.Name())}
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			it.m = e.val(fr, x.X).(*Term)
			it.mt = mt
			it.key0 = c.Select(e.mapPres(e.st, mt), it.m)
			ks := e.mapKeySort(mt)
			e.heapSet(it.id, c.ConstArr(arrSort(ks, sBool), c.False()))
			e.heapSet(it.id+"#n", c.Int(0))
			e.noteWrite(it.id+"#n", nil)
			e.noteWrite(it.id, nil)
		} else {
			it.str = e.val(fr, x.X).(*Term)
			e.heapSet(it.id, c.Int(0))
			e.noteWrite(it.id, nil)
		}
		fr.vals[x] = it
	case *ssa.Next:
		e.next(fr, x)
	case *ssa.Slice:
		e.sliceOp(fr, x)
	case *ssa.Store:
		pt := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		p := e.val(fr, x.Addr)
		if t, ok := p.(*Term); ok {
			e.check("nil dereference", c.Not(c.Eq(t, c.Int(0))), x.Pos())
		}
		e.storeAddr(e.deref(p, pt), e.val(fr, x.Val))
	case *ssa.TypeAssert:
		e.typeAssert(fr, x)
	case *ssa.Defer:
		d := deferRec{pc: e.st.pc, call: &x.Call, pos: x.Pos()}
		if !x.Call.IsInvoke() {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				d.fnv = e.val(fr, x.Call.Value)
			}
		} else {
			d.fnv = e.val(fr, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(fr, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			before := e.st.clone()
			e.st.pc = c.And(e.st.pc, d.pc)
			if e.st.pc.isFalse() {
				e.st = before
				continue
			}
			e.callWith(fr, d.call, d.fnv, d.args, nil, d.pos)
			skip := before.clone()
			skip.pc = c.And(skip.pc, c.Not(d.pc))
			if skip.pc.isFalse() || d.pc == before.pc || c.And(before.pc, d.pc) == before.pc {
				continue
			}
			st, _ := e.mergeStates([]*State{e.st, skip})
			e.st = st
		}
	case *ssa.Go, *ssa.Send, *ssa.Select:
		panic(unsupported("concurrency: " + in.String()))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (e *Exec) opaqueField(v *Term, t types.Type, f *types.Var) Value {
	var ts []*Term
	for _, l := range e.leaves(f.Type()) {
		ts = append(ts, e.c.App("ofield:"+tname(t)+"."+f.Name()+l.suf, l.sort, v))
	}
	r := e.unflatten(f.Type(), ts)
	e.typeFacts(r, f.Type())
	return r
}

func (e *Exec) fieldAddr(p Value, pt types.Type, f *types.Var, pos token.Pos) Value {
	if t, ok := p.(*Term); ok {
		e.check("nil dereference", e.c.Not(e.c.Eq(t, e.c.Int(0))), pos)
	}
	if isOpaqueStruct(pt) {
		// fields of external structs reached through a pointer live in their own heaps
		t, ok := p.(*Term)
		if !ok {
			a := p.(*AddrV)
			if a.kind == "field" && a.inOpaque {
				n := *a
				n.key, n.t = a.key+"."+f.Name(), f.Type()
				return &n
			}
			t = e.addrTerm(a)
		}
		return &AddrV{kind: "field", inOpaque: isOpaqueStruct(f.Type()), owner: tname(pt), key: structKey(pt) + "." + f.Name(), ref: t, t: f.Type()}
	}
	a := e.deref(p, pt)
	n := *a
	n.key = a.key + "." + f.Name()
	n.t = f.Type()
	if n.kind == "elem" || n.kind == "field" || n.kind == "global" {
		return &n
	}
	panic(unsupported("field address kind " + a.kind))
}

func (e *Exec) retype(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{t: t}
		st := t.Underlying().(*types.Struct)
		for i := range x.f {
			n.f = append(n.f, e.retype(x.f[i], st.Field(i).Type()))
		}
		return n
	case *ArrayV:
		return &ArrayV{t, x.a}
	}
	return v
}

func (e *Exec) makeMap(mt *types.Map) *Term {
	c := e.c
	r := e.alloc("map")
	mk := mapKey(mt)
	ks := e.mapKeySort(mt)
	e.heapSet(mk+"!p", c.Store(e.mapPres(e.st, mt), r, c.ConstArr(arrSort(ks, sBool), c.False())))
	e.noteWrite(mk+"!p", r)
	e.heapSet(mk+"!n", c.Store(e.mapLen(e.st, mt), r, c.Int(0)))
	e.noteWrite(mk+"!n", r)
	return r
}

func (e *Exec) makeSlice(el types.Type, ln, cp *Term) *SliceV {
	c := e.c
	r := e.alloc("arr")
	for _, l := range e.leaves(el) {
		k := elemKey(el) + l.suf
		h := e.heapGet(e.st, k, arrSort(sInt, arrSort(sInt, l.sort)))
		e.heapSet(k, c.Store(h, r, c.ConstArr(arrSort(sInt, l.sort), e.zeroLeaf(l))))
		e.noteWrite(k, r)
	}
	return &SliceV{r, c.Int(0), ln, cp}
}

// ---- interfaces ----

// boxName is a simple SMT symbol: cvc5 takes no quoted symbol after "_ is".
func boxName(t types.Type) string {
	var b strings.Builder
	b.WriteString("b!")
	for _, r := range tname(t) {
		switch {
		case r == '[':
			b.WriteByte('<')
		case r == ']':
			b.WriteByte('>')
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("~!@$%^&*_-+=.?/", r):
			b.WriteRune(r)
		default:
			fmt.Fprintf(&b, "~%x~", r)
		}
	}
	return b.String()
}

func (e *Exec) box(v Value, t types.Type) *Term {
	if types.IsInterface(t) {
		return v.(*Term)
	}
	e.regBox(t)
	return e.c.Box(boxName(t), e.flatten(v, t))
}

func (e *Exec) regBox(t types.Type) {
	n := boxName(t)
	if _, ok := e.c.boxes[n]; !ok {
		var ss []Sort
		for _, l := range e.leaves(t) {
			ss = append(ss, l.sort)
		}
		e.c.declBox(n, ss)
		e.v.boxTypes[n] = t
	}
}

func (e *Exec) unbox(x *Term, t types.Type) Value {
	e.regBox(t)
	n := boxName(t)
	var ts []*Term
	for i := range e.leaves(t) {
		ts = append(ts, e.c.Unbox(x, n, i))
	}
	v := e.unflatten(t, ts)
	e.typeFacts(v, t)
	return v
}

func (e *Exec) isType(x *Term, t types.Type) *Term {
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return e.c.Not(e.c.IsBox(x, "inil"))
		}
		return e.c.Or(e.implTerm(x, t, it))
	}
	e.regBox(t)
	return e.c.IsBox(x, boxName(t))
}

func (e *Exec) implTerm(x *Term, t types.Type, it *types.Interface) *Term {
	n := "impl:" + tname(t)
	ok := func(b string) bool {
		bt := e.v.boxTypes[b]
		return bt != nil && types.Implements(bt, it)
	}
	if x.kind == 'k' && x.op != "iother" {
		return e.c.Bool(x.op != "inil" && ok(x.op))
	}
	e.c.impls[n] = &implT{n, ok}
	return e.c.App(n, sBool, x)
}

func (e *Exec) typeAssert(fr *frame, x *ssa.TypeAssert) {
	v := e.val(fr, x.X).(*Term)
	ok := e.isType(v, x.AssertedType)
	var r Value
	if types.IsInterface(x.AssertedType) {
		r = e.c.Ite(ok, v, e.c.INil())
		if !x.CommaOk {
			r = v
		}
	} else {
		u := e.unbox(v, x.AssertedType)
		if x.CommaOk {
			z := e.flatten(e.zero(x.AssertedType), x.AssertedType)
			ts := e.flatten(u, x.AssertedType)
			var out []*Term
			for i := range ts {
				out = append(out, e.c.Ite(ok, ts[i], z[i]))
			}
			r = e.unflatten(x.AssertedType, out)
		} else {
			r = u
		}
	}
	if x.CommaOk {
		fr.vals[x] = TupleV{r, ok}
		return
	}
	e.check("type assertion", ok, x.Pos())
	fr.vals[x] = r
}

// ---- map/string iteration ----

func (e *Exec) next(fr *frame, x *ssa.Next) {
	c := e.c
	it := e.val(fr, x.Iter).(*IterV)
	if it.str != nil {
		pos := e.heapGet(e.st, it.id, sInt)
		n := e.strLen(it.str)
		ok := c.Lt(pos, n)
		rn := c.Fresh("rune", sInt)
		w := c.Fresh("rw", sInt)
		e.assumeRaw(c.And(c.Le(c.Int(0), rn), c.Le(rn, c.Int(0x10FFFF)), c.Le(c.Int(1), w), c.Le(w, c.Int(4))))
		e.assume(c.Implies(ok, c.And(c.Le(c.Add(pos, w), n),
			c.Implies(c.Lt(e.strAt(it.str, pos), c.Int(128)), c.And(c.Eq(w, c.Int(1)), c.Eq(rn, e.strAt(it.str, pos)))),
			c.Implies(c.Le(c.Int(128), e.strAt(it.str, pos)), c.Le(c.Int(128), rn)))))
		e.heapSet(it.id, c.Ite(ok, c.Add(pos, w), pos))
		e.noteWrite(it.id, nil)
		fr.vals[x] = TupleV{ok, pos, rn}
		return
	}
	ks := e.mapKeySort(it.mt)
	vis := e.heapGet(e.st, it.id, arrSort(ks, sBool))
	k := e.freshVal("key", it.mt.Key())
	kt := e.flatten(k, it.mt.Key())[0]
	ok := c.Fresh("more", sBool)
	e.assume(c.Implies(ok, c.And(e.mapHas(e.st, it.mt, it.m, kt), c.Not(c.Select(vis, kt)))))
	q := c.BoundVar("k", ks)
	cur := c.Select(e.mapPres(e.st, it.mt), it.m)
	e.assume(c.Implies(c.And(c.Not(ok), c.Not(c.Eq(it.m, c.Int(0)))), c.Quant("forall", []*Term{q},
		c.Implies(c.And(c.Select(it.key0, q), c.Select(cur, q)), c.Select(vis, q)))))
	v := e.mapGet(e.st, it.mt, it.m, kt)
	// as many keys as the map has, as long as the loop leaves its keys as they were
	n := e.heapGet(e.st, it.id+"#n", sInt)
	ln := e.mapLenOf(e.st, it.mt, it.m)
	e.assume(c.And(c.Le(c.Int(0), n), c.Implies(c.And(c.Not(c.Eq(it.m, c.Int(0))), c.Eq(cur, it.key0)), c.Ite(ok, c.Lt(n, ln), c.Eq(n, ln)))))
	e.heapSet(it.id+"#n", c.Ite(ok, c.Add(n, c.Int(1)), n))
	e.noteWrite(it.id+"#n", nil)
	e.heapSet(it.id, c.Ite(ok, c.Store(vis, kt, c.True()), vis))
	e.noteWrite(it.id, nil)
	fr.vals[x] = TupleV{ok, k, v}
}

// ---- strings ----

func (e *Exec) strLen(s *Term) *Term {
	if l, ok := e.c.litOf(s); ok {
		return e.c.Int(int64(len(l)))
	}
	if e.c.smtStr {
		return e.c.Op("str.len", sInt, s)
	}
	t := e.c.App("strlen", sInt, s)
	if !s.bound && !e.factDone[t] && e.quant == 0 {
		e.factDone[t] = true
		e.assumeRaw(e.c.And(e.c.Le(e.c.Int(0), t), e.c.Eq(e.c.Eq(t, e.c.Int(0)), e.c.Eq(s, e.c.StrLit("")))))
	}
	return t
}

func (e *Exec) strAt(s, i *Term) *Term {
	if l, ok := e.c.litOf(s); ok && i.num != nil {
		k := i.num.Int64()
		if k >= 0 && k < int64(len(l)) {
			return e.c.Int(int64(l[k]))
		}
	}
	if e.c.smtStr {
		t := e.c.Op("str.to_code", sInt, e.c.Op("str.at", "String", s, i))
		return t
	}
	if l, ok := e.c.litOf(s); ok && len(l) > 0 && len(l) <= 64 {
		// finite table
		r := e.c.Int(int64(l[len(l)-1]))
		for k := len(l) - 2; k >= 0; k-- {
			r = e.c.Ite(e.c.Eq(i, e.c.Int(int64(k))), e.c.Int(int64(l[k])), r)
		}
		return r
	}
	if s.nfun == "bytestr" && !e.c.smtStr {
		return e.c.Select(s.args[0], e.c.Add(s.args[1], i))
	}
	t := e.c.App("strat", sInt, s, i)
	if !t.bound && !e.factDone[t] && e.quant == 0 {
		e.factDone[t] = true
		e.assumeRaw(e.c.And(e.c.Le(e.c.Int(0), t), e.c.Le(t, e.c.Int(255))))
	}
	return t
}

func (e *Exec) strCat(a, b *Term) *Term {
	if x, ok := e.c.litOf(a); ok {
		if x == "" {
			return b
		}
		if y, ok := e.c.litOf(b); ok {
			return e.c.StrLit(x + y)
		}
	}
	if y, ok := e.c.litOf(b); ok && y == "" {
		return a
	}
	if e.c.smtStr {
		return e.c.Op("str.++", "String", a, b)
	}
	// right-associate and merge literals so that equal concatenations get one term
	if a.nfun == "strcat" {
		return e.strCat(a.args[0], e.strCat(a.args[1], b))
	}
	if b.nfun == "strcat" {
		if x, ok := e.c.litOf(a); ok {
			if y, ok := e.c.litOf(b.args[0]); ok {
				return e.strCat(e.c.StrLit(x+y), b.args[1])
			}
		}
	}
	t := e.c.App("strcat", "Str", a, b)
	if !t.bound && !e.factDone[t] && e.quant == 0 {
		e.factDone[t] = true
		e.assumeRaw(e.c.Eq(e.strLen(t), e.c.Add(e.strLen(a), e.strLen(b))))
	}
	return t
}

func (e *Exec) strSub(s, lo, hi *Term) *Term {
	c := e.c
	if l, ok := c.litOf(s); ok && lo.num != nil && hi.num != nil {
		a, b := lo.num.Int64(), hi.num.Int64()
		if 0 <= a && a <= b && b <= int64(len(l)) {
			return c.StrLit(l[a:b])
		}
	}
	if lo.num != nil && lo.num.Sign() == 0 && hi == e.strLen(s) {
		return s
	}
	if c.smtStr {
		return c.Op("str.substr", "String", s, lo, c.Sub(hi, lo))
	}
	t := c.App("strsub", "Str", s, lo, hi)
	if !t.bound && !e.factDone[t] && e.quant == 0 {
		e.factDone[t] = true
		e.assumeRaw(c.Implies(c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, e.strLen(s))), c.Eq(e.strLen(t), c.Sub(hi, lo))))
	}
	return t
}

// bytesOf gives the byte contents of a string as an array from index 0.
func (e *Exec) bytesOf(s *Term) *Term {
	t := e.c.App("strbytes", arrSort(sInt, sInt), s)
	if l, ok := e.c.litOf(s); ok && len(l) <= 16 && !e.factDone[t] && e.quant == 0 {
		e.factDone[t] = true
		for k := range []byte(l) {
			e.assumeRaw(e.c.Eq(e.c.Select(t, e.c.Int(int64(k))), e.c.Int(int64(l[k]))))
		}
	}
	return t
}

func (e *Exec) strOfBytes(arr, off, ln *Term) *Term {
	// the bytes of a string, whole
	if arr.nfun == "strbytes" && off.num != nil && off.num.Sign() == 0 && ln == e.strLen(arr.args[0]) {
		return arr.args[0]
	}
	t := e.c.App("bytestr", e.c.strSort(), arr, off, ln)
	if !t.bound && !e.factDone[t] && e.quant == 0 {
		e.factDone[t] = true
		e.assumeRaw(e.c.Implies(e.c.Le(e.c.Int(0), ln), e.c.Eq(e.strLen(t), ln)))
		if !e.c.smtStr && e.con != nil && e.con.Chars {
			i := e.c.BoundVar("i", sInt)
			at := e.c.App("strat", sInt, t, i)
			e.assumeRaw(e.c.Quant("forall", []*Term{i}, e.c.Op("!pat", sBool, e.c.Implies(e.c.And(e.c.Le(e.c.Int(0), i), e.c.Lt(i, ln)), e.c.Eq(at, e.c.Select(arr, e.c.Add(off, i)))), at)))
		}
	}
	return t
}

// ---- slices ----

func (e *Exec) sliceOp(fr *frame, x *ssa.Slice) {
	c := e.c
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.val(fr, v).(*Term)
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	switch a := e.val(fr, x.X).(type) {
	case *SliceV:
		if hi == nil {
			hi = a.ln
		}
		cp := a.cp
		if mx != nil {
			cp = mx
		}
		e.check("slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, cp), c.Le(cp, a.cp)), x.Pos())
		fr.vals[x] = &SliceV{a.arr, c.Add(a.off, lo), c.Sub(hi, lo), c.Sub(cp, lo)}
		// nil stays nil with zero offset
	case *Term:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if hi == nil {
				hi = e.strLen(a)
			}
			e.check("string slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, e.strLen(a))), x.Pos())
			fr.vals[x] = e.strSub(a, lo, hi)
			return
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		fr.vals[x] = &SliceV{a, lo, c.Sub(hi, lo), c.Sub(cp, lo)}
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", a)))
	}
}

func (e *Exec) elemHeap(st *State, el types.Type, l leaf) *Term {
	return e.heapGet(st, elemKey(el)+l.suf, arrSort(sInt, arrSort(sInt, l.sort)))
}

// appendOp models append(s, t...).
func (e *Exec) appendOp(s, t *SliceV, el types.Type) *SliceV {
	c := e.c
	if t.ln.num != nil && t.ln.num.Sign() == 0 {
		return s
	}
	nl := c.Add(s.ln, t.ln)
	fits := c.Le(nl, s.cp)
	if s.cp.num != nil && s.cp.num.Sign() == 0 {
		fits = c.False()
	}
	fr := e.alloc("app")
	arr := c.Ite(fits, s.arr, fr)
	nc := c.Fresh("cap", sInt)
	e.assumeRaw(c.Le(nl, nc))
	cp := c.Ite(fits, s.cp, nc)
	var oldStr *Term
	if ls := e.leaves(el); len(ls) == 1 {
		oldStr = e.elemHeap(e.st, el, ls[0])
	}
	for _, l := range e.leaves(el) {
		k := elemKey(el) + l.suf
		h := e.elemHeap(e.st, el, l)
		src := c.Select(h, t.arr)
		base := c.Select(h, s.arr)
		var nw *Term
		if t.ln.num != nil && t.ln.num.Cmp(big.NewInt(16)) <= 0 {
			nw = base
			for i := int64(0); i < t.ln.num.Int64(); i++ {
				nw = c.Store(nw, c.Add(c.Add(s.off, s.ln), c.Int(i)), c.Select(src, c.Add(t.off, c.Int(i))))
			}
		} else {
			nw = c.Fresh("appc", arrSort(sInt, l.sort))
			i := c.BoundVar("i", sInt)
			st := c.Add(s.off, s.ln)
			e.assumeRaw(c.Quant("forall", []*Term{i}, c.Eq(c.Select(nw, i),
				c.Ite(c.And(c.Le(st, i), c.Lt(i, c.Add(st, t.ln))), c.Select(src, c.Add(t.off, c.Sub(i, st))), c.Select(base, i)))))
		}
		e.heapSet(k, c.Store(h, arr, nw))
		e.noteWrite(k, arr)
	}
	r := &SliceV{arr, s.off, nl, cp}
	if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.String && t.ln.num != nil && t.ln.num.Cmp(big.NewInt(4)) <= 0 {
		h0 := oldStr
		ja := joinApp{c.Select(h0, s.arr), s.off, s.ln, c.Select(e.elemHeap(e.st, el, e.leaves(el)[0]), arr), nl, nil}
		for i := int64(0); i < t.ln.num.Int64(); i++ {
			ja.added = append(ja.added, c.Select(c.Select(h0, t.arr), c.Add(t.off, c.Int(i))))
		}
		e.joinLog = append(e.joinLog, ja)
	}
	if t.ln.num == nil {
		z := c.Eq(t.ln, c.Int(0))
		r.arr = c.Ite(z, s.arr, r.arr)
		r.cp = c.Ite(z, s.cp, r.cp)
	}
	return r
}

func (e *Exec) copyOp(d, s *SliceV, el types.Type) *Term {
	c := e.c
	n := c.Ite(c.Le(d.ln, s.ln), d.ln, s.ln)
	for _, l := range e.leaves(el) {
		k := elemKey(el) + l.suf
		h := e.elemHeap(e.st, el, l)
		src := c.Select(h, s.arr)
		base := c.Select(h, d.arr)
		nw := c.Fresh("cpy", arrSort(sInt, l.sort))
		i := c.BoundVar("i", sInt)
		e.assumeRaw(c.Quant("forall", []*Term{i}, c.Eq(c.Select(nw, i),
			c.Ite(c.And(c.Le(d.off, i), c.Lt(i, c.Add(d.off, n))), c.Select(src, c.Add(s.off, c.Sub(i, d.off))), c.Select(base, i)))))
		e.heapSet(k, c.Store(h, d.arr, nw))
		e.noteWrite(k, d.arr)
	}
	return n
}

// strSlice gives a slice value over the bytes of a string.
func (e *Exec) strSlice(s *Term) *SliceV {
	c := e.c
	bt := types.Typ[types.Uint8]
	r := e.alloc("sb")
	k := elemKey(bt)
	h := e.heapGet(e.st, k, arrSort(sInt, arrSort(sInt, sInt)))
	e.heapSet(k, c.Store(h, r, e.bytesOf(s)))
	e.noteWrite(k, r)
	n := e.strLen(s)
	if e.quant == 0 && !s.bound {
		e.assumeRaw(c.Eq(c.App("bytestr", c.strSort(), e.bytesOf(s), c.Int(0), n), s))
	}
	return &SliceV{r, c.Int(0), n, n}
}

// ---- conversions ----

func (e *Exec) convert(v Value, from, to types.Type) Value {
	c := e.c
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return e.wrapTo(v.(*Term), fb, tb)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			t := v.(*Term)
			if t.num != nil {
				return c.RealLit(realText(t.num))
			}
			if e.con == nil || !e.con.ExactInts {
				// beyond 2^53 the nearest float is taken, whichever that is
				r := c.App("int2float", sReal, t)
				lim := c.Int(9007199254740992)
				e.assumeRaw(c.Implies(c.And(c.Le(c.Neg(lim), t), c.Le(t, lim)), c.Eq(r, c.Op("to_real", sReal, t))))
				return r
			}
			e.used["conversion of integers beyond 2^53 to floats is read as exact"] = true
			return c.Op("to_real", sReal, t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			t := v.(*Term)
			e.used["float-to-int conversion truncates a mathematical real"] = true
			return c.Ite(c.Op("<=", sBool, c.RealLit("0.0"), t), c.Op("to_int", sInt, t), c.Neg(c.Op("to_int", sInt, c.Op("-", sReal, t))))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return v
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			t := v.(*Term)
			if c.smtStr {
				return c.Op("str.from_code", "String", t)
			}
			r := c.App("runestr", "Str", t)
			if e.quant == 0 && !r.bound {
				e.assumeRaw(c.Implies(c.And(c.Le(c.Int(0), t), c.Lt(t, c.Int(128))), c.And(c.Eq(e.strLen(r), c.Int(1)), c.Eq(e.strAt(r, c.Int(0)), t))))
			}
			return r
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok {
			sv := v.(*SliceV)
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				h := e.heapGet(e.st, elemKey(sl.Elem()), arrSort(sInt, arrSort(sInt, sInt)))
				return e.strOfBytes(c.Select(h, sv.arr), sv.off, sv.ln)
			}
			return c.App("runesstr", c.strSort(), c.Select(e.heapGet(e.st, elemKey(sl.Elem()), arrSort(sInt, arrSort(sInt, sInt))), sv.arr), sv.off, sv.ln)
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				return e.strSlice(v.(*Term))
			}
			// []rune(s)
			r := e.freshVal("runes", to).(*SliceV)
			return r
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	panic(unsupported("conversion " + from.String() + " -> " + to.String()))
}

func realText(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ".0)"
	}
	return n.String() + ".0"
}

func bounds(b *types.Basic) (lo, hi *big.Int) {
	l, h, ok := intRange(b)
	if !ok {
		l, h = "-9223372036854775808", "9223372036854775807"
	}
	lo, _ = new(big.Int).SetString(l, 10)
	hi, _ = new(big.Int).SetString(h, 10)
	return
}

func (e *Exec) wrapTo(t *Term, from, to *types.Basic) *Term {
	fl, fh := bounds(from)
	tl, th := bounds(to)
	if fl.Cmp(tl) >= 0 && fh.Cmp(th) <= 0 {
		return t
	}
	return e.wrap(t, tl, th)
}

func (e *Exec) wrap(t *Term, tl, th *big.Int) *Term {
	c := e.c
	if t.num != nil {
		m := new(big.Int).Sub(th, tl)
		m.Add(m, big.NewInt(1))
		x := new(big.Int).Sub(t.num, tl)
		x.Mod(x, m)
		x.Add(x, tl)
		return c.Big(x)
	}
	m := new(big.Int).Sub(th, tl)
	m.Add(m, big.NewInt(1))
	in := c.And(c.Le(c.Big(tl), t), c.Le(t, c.Big(th)))
	w := c.Add(c.Op("mod", sInt, c.Sub(t, c.Big(tl)), c.Big(m)), c.Big(tl))
	return c.Ite(in, t, w)
}

// ---- operators ----

func (e *Exec) unop(fr *frame, x *ssa.UnOp) {
	c := e.c
	v := e.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		if t, ok := v.(*Term); ok {
			e.check("nil dereference", c.Not(c.Eq(t, c.Int(0))), x.Pos())
		}
		if g, ok := x.X.(*ssa.Global); ok {
			fr.vals[x] = e.loadGlobal(g, pt)
			return
		}
		fr.vals[x] = e.loadAddr(e.st, e.deref(v, pt))
	case token.NOT:
		fr.vals[x] = c.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.sort == sReal {
			fr.vals[x] = c.Op("-", sReal, t)
		} else {
			fr.vals[x] = c.Neg(t)
		}
	case token.XOR:
		t := v.(*Term)
		b := x.X.Type().Underlying().(*types.Basic)
		lo, hi := bounds(b)
		if lo.Sign() == 0 {
			fr.vals[x] = c.Sub(c.Big(hi), t)
		} else {
			fr.vals[x] = c.Sub(c.Neg(t), c.Int(1))
		}
	case token.ARROW:
		panic(unsupported("channel receive"))
	default:
		panic(unsupported("unop " + x.Op.String()))
	}
}

func (e *Exec) loadGlobal(g *ssa.Global, t types.Type) Value {
	a := e.globalAddr(g).(*AddrV)
	if types.IsInterface(t) {
		if tn := e.v.errGlobal(g); tn != 0 {
			// an error variable set once, by its package's initialisation
			if !e.v.globalReassigned(g) {
				e.used["error variables set only by package initialisation are non-nil and distinct"] = true
				return e.c.IOther(e.c.Int(1), e.c.Int(int64(-tn)))
			}
		}
	}
	if !e.v.globalReassigned(g) {
		if v, ok := e.v.constGlobal(e, g); ok {
			return v
		}
	}
	return e.loadAddr(e.st, a)
}

func (e *Exec) eqVals(a, b Value, ta, tb types.Type) *Term {
	c := e.c
	// interface vs concrete
	if types.IsInterface(ta) && !types.IsInterface(tb) {
		if isNilConst(b) {
		}
		b = e.box(b, tb)
		return c.Eq(a.(*Term), b.(*Term))
	}
	if types.IsInterface(tb) && !types.IsInterface(ta) {
		a = e.box(a, ta)
		return c.Eq(a.(*Term), b.(*Term))
	}
	if sa, ok := a.(*SliceV); ok {
		// only comparison with nil is legal in Go
		sb := b.(*SliceV)
		if sb.arr.num != nil {
			return c.Eq(sa.arr, c.Int(0))
		}
		return c.Eq(sb.arr, c.Int(0))
	}
	if fa, ok := a.(*FuncV); ok {
		return c.Eq(e.funcTerm(fa), e.flatten(b, tb)[0])
	}
	if fb, ok := b.(*FuncV); ok {
		return c.Eq(e.flatten(a, ta)[0], e.funcTerm(fb))
	}
	xs, ys := e.flatten(a, ta), e.flatten(b, tb)
	var es []*Term
	for i := range xs {
		es = append(es, c.Eq(xs[i], ys[i]))
	}
	return c.And(es...)
}

func isNilConst(v Value) bool { return false }

func (e *Exec) binop(op token.Token, a, b Value, ta, tb, tr types.Type, pos token.Pos) Value {
	c := e.c
	switch op {
	case token.EQL:
		return e.eqVals(a, b, ta, tb)
	case token.NEQ:
		return c.Not(e.eqVals(a, b, ta, tb))
	}
	x, y := a.(*Term), b.(*Term)
	bt := ta.Underlying().(*types.Basic)
	if x.sort == c.strSort() {
		switch op {
		case token.ADD:
			return e.strCat(x, y)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			strict := op == token.LSS || op == token.GTR
			if c.smtStr {
				if strict {
					return c.Op("str.<", sBool, x, y)
				}
				return c.Op("str.<=", sBool, x, y)
			}
			return e.strLess(x, y, strict)
		}
	}
	if x.sort == sReal {
		switch op {
		case token.ADD:
			return c.Op("+", sReal, x, y)
		case token.SUB:
			return c.Op("-", sReal, x, y)
		case token.MUL:
			return c.Op("*", sReal, x, y)
		case token.QUO:
			return c.Op("/", sReal, x, y)
		}
	}
	arith := func(t *Term) *Term {
		if t.num != nil {
			lo, hi := bounds(bt)
			return e.wrap(t, lo, hi)
		}
		switch bt.Kind() {
		case types.Int, types.Int64, types.Uint64, types.Uint, types.Uintptr, types.UntypedInt:
			e.used["64-bit integer arithmetic is treated as mathematical (no overflow)"] = true
			return t
		}
		lo, hi := bounds(bt)
		return e.wrap(t, lo, hi)
	}
	switch op {
	case token.LSS:
		return c.Lt(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.LEQ:
		return c.Le(x, y)
	case token.GEQ:
		return c.Le(y, x)
	case token.ADD:
		return arith(c.Add(x, y))
	case token.SUB:
		return arith(c.Sub(x, y))
	case token.MUL:
		return arith(c.Mul(x, y))
	case token.QUO:
		e.check("division by zero", c.Not(c.Eq(y, c.Int(0))), pos)
		return e.goDiv(x, y, bt)
	case token.REM:
		e.check("division by zero", c.Not(c.Eq(y, c.Int(0))), pos)
		return e.goMod(x, y, bt)
	case token.SHL:
		if y.num != nil && y.num.IsInt64() && y.num.Int64() < 64 {
			return arith(c.Mul(x, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(y.num.Int64())))))
		}
	case token.SHR:
		if y.num != nil && y.num.IsInt64() && y.num.Int64() < 64 {
			return c.Op("div", sInt, x, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(y.num.Int64()))))
		}
	case token.AND:
		if x.num != nil && y.num == nil {
			x, y = y, x
		}
		if x.num != nil && y.num != nil {
			return c.Big(new(big.Int).And(x.num, y.num))
		}
		if y.num != nil && y.num.Sign() >= 0 {
			if r := e.maskAnd(x, y.num); r != nil {
				return r
			}
		}
	case token.OR:
		if x.num != nil && y.num != nil {
			return c.Big(new(big.Int).Or(x.num, y.num))
		}
		if x.num != nil {
			x, y = y, x
		}
		if y.num != nil && y.num.Sign() >= 0 {
			// x | m = x + m - (x & m)
			if r := e.maskAnd(x, y.num); r != nil {
				return c.Sub(c.Add(x, y), r)
			}
		}
	case token.AND_NOT:
		if y.num != nil {
			if r := e.maskAnd(x, y.num); r != nil {
				return c.Sub(x, r)
			}
		}
	}
	// uninterpreted bit operation
	t := c.App("bit"+op.String()+":"+bt.Name(), sInt, x, y)
	if e.quant == 0 {
		e.leafFacts(t, ta)
	}
	return t
}

// maskAnd is x & m for a constant m made of contiguous one bits.
func (e *Exec) maskAnd(x *Term, m *big.Int) *Term {
	c := e.c
	if m.Sign() == 0 {
		return c.Int(0)
	}
	lo := int(m.TrailingZeroBits())
	top := m.BitLen()
	ones := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(top-lo)), big.NewInt(1))
	if new(big.Int).Lsh(ones, uint(lo)).Cmp(m) != 0 {
		return nil
	}
	d := x
	if lo > 0 {
		d = c.Op("div", sInt, x, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(lo))))
	}
	r := c.Op("mod", sInt, d, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(top-lo))))
	if lo > 0 {
		r = c.Mul(r, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(lo))))
	}
	return r
}

func (e *Exec) goDiv(x, y *Term, bt *types.Basic) *Term {
	c := e.c
	if x.num != nil && y.num != nil && y.num.Sign() != 0 {
		return c.Big(new(big.Int).Quo(x.num, y.num))
	}
	lo, _ := bounds(bt)
	d := c.Op("div", sInt, x, y)
	if lo.Sign() == 0 {
		return d
	}
	return c.Ite(c.Le(c.Int(0), x), d, c.Neg(c.Op("div", sInt, c.Neg(x), y)))
}

func (e *Exec) goMod(x, y *Term, bt *types.Basic) *Term {
	c := e.c
	if x.num != nil && y.num != nil && y.num.Sign() != 0 {
		return c.Big(new(big.Int).Rem(x.num, y.num))
	}
	lo, _ := bounds(bt)
	d := c.Op("mod", sInt, x, y)
	if lo.Sign() == 0 {
		return d
	}
	return c.Ite(c.Le(c.Int(0), x), d, c.Neg(c.Op("mod", sInt, c.Neg(x), y)))
}

// strLess is an abstract total order on strings.
func (e *Exec) strLess(x, y *Term, strict bool) *Term {
	c := e.c
	if x == y {
		return c.Bool(!strict)
	}
	if a, ok := c.litOf(x); ok {
		if b, ok := c.litOf(y); ok {
			if strict {
				return c.Bool(a < b)
			}
			return c.Bool(a <= b)
		}
	}
	rx := c.App("strrank", sReal, x)
	ry := c.App("strrank", sReal, y)
	if e.quant == 0 && !rx.bound && !ry.bound {
		e.assumeRaw(c.Implies(c.Eq(rx, ry), c.Eq(x, y)))
	}
	if strict {
		return c.Lt(rx, ry)
	}
	return c.Le(rx, ry)
}

var _ = strings.Contains

// joinApp records an append to a []string, for strings.Join.
type joinApp struct {
	c0, off, n0, c1, n1 *Term
	added               []*Term
}
