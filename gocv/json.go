package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoding/json as an assumed contract: Marshal renders a value as text that is a function of its
// fields; Unmarshal of that text gives the same fields back.

type jsonEnc struct {
	term *Term
	t    types.Type // struct, string or map[string]interface{}
	vals []*Term
}

type jsonField struct {
	name, tag string
	omit      bool
	v         *types.Var
}

// jsonFields lists the fields encoding/json sees, in order; skip tells why a field is not one.
func jsonFields(t types.Type) []jsonField {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []jsonField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		jf := jsonField{name: f.Name(), v: f}
		if f.Exported() {
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag != "-" {
				parts := strings.Split(tag, ",")
				jf.tag = parts[0]
				if jf.tag == "" {
					jf.tag = f.Name()
				}
				for _, p := range parts[1:] {
					jf.omit = jf.omit || p == "omitempty"
				}
			}
		}
		out = append(out, jf)
	}
	return out
}

func isMSI(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && types.Identical(m.Key().Underlying(), types.Typ[types.String]) && types.IsInterface(m.Elem())
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// jsonEncTerm is the text of value v of type t.
func (e *Exec) jsonEncTerm(v Value, t types.Type) *Term {
	c := e.c
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isSt := p.Elem().Underlying().(*types.Struct); isSt && !isOpaqueStruct(p.Elem()) {
			t = p.Elem()
			v = e.loadAddr(e.st, e.deref(v, t))
		}
	}
	var ts []*Term
	name := ""
	switch {
	case isStr(t):
		name = "string"
		ts = e.flatten(v, t)
	case isMSI(t):
		name = "map"
		mt := t.Underlying().(*types.Map)
		r := v.(*Term)
		ts = []*Term{c.Select(e.mapPres(e.st, mt), r), c.Select(e.mapVals(e.st, mt)[0], r)}
	default:
		st, ok := t.Underlying().(*types.Struct)
		if !ok || isOpaqueStruct(t) {
			ls := e.flatten(v, t)
			return c.App("jsonenc:"+tname(t), c.strSort(), ls...)
		}
		name = fmt.Sprintf("struct%s", structKey(t))
		sv := v.(*StructV)
		for i := 0; i < st.NumFields(); i++ {
			jf := jsonFields(t)[i]
			if jf.tag == "" {
				continue
			}
			ts = append(ts, e.flatten(sv.f[i], st.Field(i).Type())...)
		}
	}
	d := c.App("jsonenc:"+name, c.strSort(), ts...)
	for _, j := range e.jsonEncs {
		if j.term == d {
			return d
		}
	}
	e.jsonEncs = append(e.jsonEncs, jsonEnc{d, t, ts})
	return d
}

func jsonMarshal(e *Exec, fn *ssa.Function, args []Value, pos token.Pos) []Value {
	c := e.c
	e.used["json.Marshal's output is a function of the encoded fields of its argument, and it writes to nothing"] = true
	a := args[0].(*Term)
	var d *Term
	if a.kind == 'k' && e.v.boxTypes[a.op] != nil {
		bt := e.v.boxTypes[a.op]
		if e.ownMarshal(bt) {
			d = c.App("jsonenc:own", c.strSort(), a)
		} else {
			d = e.jsonEncTerm(e.unbox(a, bt), bt)
		}
	} else {
		d = c.App("jsonenc:any", c.strSort(), a)
	}
	rs := e.freshResults("json", fn.Signature)
	sv := rs[0].(*SliceV)
	errT := rs[1].(*Term)
	// fresh bytes
	k := elemKey(types.Typ[types.Uint8])
	h := e.heapGet(e.st, k, arrSort(sInt, arrSort(sInt, sInt)))
	r := e.alloc("json")
	cont := c.Fresh("jsonb", arrSort(sInt, sInt))
	e.heapSet(k, c.Store(h, r, cont))
	e.noteWrite(k, r)
	ok := c.IsBox(errT, "inil")
	out := &SliceV{c.Ite(ok, r, c.Int(0)), c.Int(0), c.Ite(ok, sv.ln, c.Int(0)), c.Ite(ok, sv.ln, c.Int(0))}
	e.assumeRaw(c.Lt(c.Int(0), sv.ln))
	if e.con != nil && e.con.Chars {
		// the name contracts have for it, and its characters
		d = c.App("u:jsontext", c.strSort(), a)
		e.strOfBytes(cont, c.Int(0), sv.ln)
	}
	e.assumeRaw(c.Eq(c.App("bytestr", c.strSort(), cont, c.Int(0), sv.ln), d))
	e.assumeRaw(c.Eq(e.strLen(d), sv.ln))
	return []Value{out, errT}
}

func (e *Exec) jsame(a, b *Term) *Term {
	return e.c.App("jsame:"+string(a.sort), sBool, a, b)
}

func jsonUnmarshal(e *Exec, fn *ssa.Function, args []Value, pos token.Pos) []Value {
	c := e.c
	a := args[1].(*Term)
	bt := types.Type(nil)
	if a.kind == 'k' {
		bt = e.v.boxTypes[a.op]
	}
	var pt *types.Pointer
	if bt != nil {
		pt, _ = bt.Underlying().(*types.Pointer)
	}
	if pt == nil {
		e.used["external encoding/json.Unmarshal into a value of unknown type: arbitrary"] = true
		return e.havocCall("json", fn.Signature, args, argTypes(fn.Signature, nil), pos)
	}
	e.used["json.Unmarshal of json.Marshal's output restores the encoded fields (valid UTF-8 text, no keys differing only in case)"] = true
	sv := args[0].(*SliceV)
	h := e.heapGet(e.st, elemKey(types.Typ[types.Uint8]), arrSort(sInt, arrSort(sInt, sInt)))
	d := e.strOfBytes(c.Select(h, sv.arr), sv.off, sv.ln)
	t := pt.Elem()
	p := e.unbox(a, bt)
	ad := e.deref(p, t)
	pre := e.loadAddr(e.st, ad)
	// a pointer to a type of the module that decodes itself runs that method
	if m := e.unmarshalMethod(bt); m != nil {
		return e.callFn(m, []Value{p, args[0]}, nil, pos)
	}
	var ok *Term
	errT := c.Ite(c.Fresh("jsonfine", sBool), c.INil(), e.newError())
	isOK := c.IsBox(errT, "inil")
	switch {
	case isStr(t):
		ok = c.App("jsonok:string", sBool, d)
		dec := c.App("jsondec:string", c.strSort(), d)
		e.storeAddr(ad, c.Ite(ok, dec, pre.(*Term)))
		for _, j := range e.jsonEncs {
			if isStr(j.t) {
				e.assumeRaw(c.Implies(c.Eq(d, j.term), c.And(ok, c.Eq(dec, j.vals[0]))))
			} else {
				e.assumeRaw(c.Implies(c.Eq(d, j.term), c.Not(ok)))
			}
		}
	case isMSI(t):
		mt := t.Underlying().(*types.Map)
		ok = c.App("u:jsonokMap", sBool, d)
		pr := c.App("jsondec:map:p", arrSort(e.mapKeySort(mt), sBool), d)
		vl := c.App("jsondec:map:v", arrSort(e.mapKeySort(mt), sIface), d)
		// decoding merges into an existing map
		r0 := pre.(*Term)
		nr := e.makeMap(mt)
		r := c.Ite(c.Eq(r0, c.Int(0)), nr, r0)
		mk := mapKey(mt)
		P, V, N := e.mapPres(e.st, mt), e.mapVals(e.st, mt)[0], e.mapLen(e.st, mt)
		np := c.Fresh("jsonp", arrSort(e.mapKeySort(mt), sBool))
		nv := c.Fresh("jsonv", arrSort(e.mapKeySort(mt), sIface))
		nn := c.Fresh("jsonn", sInt)
		kk := c.BoundVar("k", e.mapKeySort(mt))
		e.assumeRaw(c.Quant("forall", []*Term{kk}, c.And(
			c.Eq(c.Select(np, kk), c.Or(c.Select(c.Select(P, r), kk), c.And(ok, c.Select(pr, kk)))),
			c.Eq(c.Select(nv, kk), c.Ite(c.And(ok, c.Select(pr, kk)), c.Select(vl, kk), c.Select(c.Select(V, r), kk))))))
		e.assumeRaw(c.Le(c.Int(0), nn))
		e.heapSet(mk+"!p", c.Store(P, r, np))
		e.heapSet(mk+"!v", c.Store(V, r, nv))
		e.heapSet(mk+"!n", c.Store(N, r, nn))
		for _, s := range []string{"!p", "!v", "!n"} {
			e.noteWrite(mk+s, r)
		}
		e.storeAddr(ad, c.Ite(ok, r, r0))
		for _, j := range e.jsonEncs {
			switch {
			case isMSI(j.t):
				k2 := c.BoundVar("k", e.mapKeySort(mt))
				e.assumeRaw(c.Implies(c.Eq(d, j.term), c.And(ok, c.Quant("forall", []*Term{k2}, c.And(c.Eq(c.Select(pr, k2), c.Select(j.vals[0], k2)), c.Implies(c.Select(pr, k2), e.jsame(c.Select(vl, k2), c.Select(j.vals[1], k2))))))))
			case isStr(j.t):
				e.assumeRaw(c.Implies(c.Eq(d, j.term), c.Not(ok)))
			}
		}
	default:
		st, isSt := t.Underlying().(*types.Struct)
		if it, isI := t.Underlying().(*types.Interface); isI && it.NumMethods() == 0 {
			ok = c.App("u:jsonok", sBool, d)
			e.storeAddr(ad, c.Ite(ok, c.App("u:jsonval", sIface, d), pre.(*Term)))
			break
		}
		if !isSt || isOpaqueStruct(t) {
			ok = c.App("jsonok:"+tname(t), sBool, d)
			if sl, isSl := t.Underlying().(*types.Slice); isSl && types.IsInterface(sl.Elem()) {
				ok = c.App("u:jsonokArr", sBool, d)
			}
			nv := e.freshVal("jsondec", t)
			e.storeAddr(ad, nv)
			break
		}
		sk := structKey(t)
		ok = c.App("jsonok:struct"+sk, sBool, d)
		pv := pre.(*StructV)
		nvs := &StructV{t: t}
		jfs := jsonFields(t)
		decs := make([][]*Term, st.NumFields())
		fresh := e.freshVal("jsondec", t).(*StructV)
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if jfs[i].tag == "" {
				nvs.f = append(nvs.f, pv.f[i])
				continue
			}
			fl := e.flatten(fresh.f[i], ft)
			decs[i] = fl
			nvs.f = append(nvs.f, fresh.f[i])
		}
		e.storeAddr(ad, nvs)
		for _, j := range e.jsonEncs {
			var law []*Term
			switch {
			case isStr(j.t):
				law = append(law, c.Not(ok))
			case isMSI(j.t):
				var fit []*Term
				for i, jf := range jfs {
					if jf.tag == "" {
						continue
					}
					ft := jf.v.Type()
					pres := c.Select(j.vals[0], c.StrLit(jf.tag))
					val := c.Select(j.vals[1], c.StrLit(jf.tag))
					prev := e.flatten(pv.f[i], ft)
					var same []*Term
					if types.IsInterface(ft) {
						same = append(same, e.jsame(decs[i][0], val))
					} else {
						fit = append(fit, c.Implies(pres, e.isType(val, ft)))
						xs := e.flatten(e.unbox(val, ft), ft)
						same = e.jsonSame(decs[i], xs, ft)
					}
					var keep []*Term
					for k := range prev {
						keep = append(keep, c.Eq(decs[i][k], prev[k]))
					}
					law = append(law, c.Ite(pres, c.And(same...), c.And(keep...)))
				}
				f := c.And(fit...)
				law = []*Term{c.Implies(f, c.And(append(law, ok)...))}
			case structKey(j.t) == sk || types.Identical(j.t.Underlying(), t.Underlying()):
				law = append(law, ok)
				x := 0
				for i, jf := range jfs {
					if jf.tag == "" {
						continue
					}
					n := len(decs[i])
					xs := j.vals[x : x+n]
					x += n
					ft := jf.v.Type()
					prev := e.flatten(pv.f[i], ft)
					same := c.And(e.jsonSame(decs[i], xs, ft)...)
					var keep []*Term
					for k := range prev {
						keep = append(keep, c.Eq(decs[i][k], prev[k]))
					}
					if jf.omit {
						law = append(law, c.Ite(e.jsonEmpty(xs, ft), c.And(keep...), same))
					} else {
						law = append(law, same)
					}
				}
			}
			if len(law) > 0 {
				e.assumeRaw(c.Implies(c.Eq(d, j.term), c.And(law...)))
			}
		}
	}
	e.assumeRaw(c.Eq(ok, isOK))
	return []Value{errT}
}

// unmarshalMethod: a module type with its own UnmarshalJSON.
func (e *Exec) unmarshalMethod(pt types.Type) *ssa.Function {
	ms := e.v.prog.MethodSets.MethodSet(pt)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "UnmarshalJSON" {
			if fn := e.v.prog.MethodValue(ms.At(i)); fn != nil && inModule(fn) {
				return fn
			}
		}
	}
	return nil
}

// jsonEmpty: encoding/json's notion of an empty value.
func (e *Exec) jsonEmpty(xs []*Term, t types.Type) *Term {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return c.Eq(xs[2], c.Int(0))
	case *types.Map:
		return c.Or(c.Eq(xs[0], c.Int(0)), c.Eq(e.mapLenOf(e.st, u, xs[0]), c.Int(0)))
	case *types.Struct:
		return c.False()
	default:
		return c.Eq(xs[0], e.zeroSort(xs[0].sort))
	}
}

func (e *Exec) jsonSame(dec, xs []*Term, t types.Type) []*Term {
	c := e.c
	switch t.Underlying().(type) {
	case *types.Basic:
		return []*Term{c.Eq(dec[0], xs[0])}
	case *types.Slice:
		return []*Term{e.jsame(dec[0], xs[0]), c.Eq(dec[2], xs[2]), c.Eq(c.Eq(dec[0], c.Int(0)), c.Eq(xs[0], c.Int(0)))}
	case *types.Pointer, *types.Map:
		return []*Term{e.jsame(dec[0], xs[0]), c.Eq(c.Eq(dec[0], c.Int(0)), c.Eq(xs[0], c.Int(0)))}
	}
	return []*Term{e.jsame(dec[0], xs[0])}
}

func (e *Exec) ownMarshal(t types.Type) bool {
	ms := e.v.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "MarshalJSON" || n == "MarshalText" {
			return true
		}
	}
	return false
}
