package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) call(fr *frame, cc *ssa.CallCommon, site ssa.Instruction, pos token.Pos) []Value {
	var fnv Value
	if cc.IsInvoke() {
		fnv = e.val(fr, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fnv = e.val(fr, cc.Value)
	}
	var args []Value
	for _, a := range cc.Args {
		args = append(args, e.val(fr, a))
	}
	return e.callWith(fr, cc, fnv, args, site, pos)
}

func (e *Exec) callWith(fr *frame, cc *ssa.CallCommon, fnv Value, args []Value, site ssa.Instruction, pos token.Pos) []Value {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return e.builtin(fr, b, cc, args, pos)
	}
	id := ""
	if site != nil {
		for i, in := range site.Block().Instrs {
			if in == site {
				id = fmt.Sprintf("/%s.%d.%d", fr.fn.Name(), site.Block().Index, i)
			}
		}
	} else {
		id = fmt.Sprintf("/defer%d", pos)
	}
	save := e.callPath
	e.callPath += id
	savePos := e.curPos
	defer func() { e.callPath = save; e.curPos = savePos }()
	if cc.IsInvoke() {
		recv := fnv.(*Term)
		return e.invoke(recv, cc.Value.Type(), cc.Method, args, pos)
	}
	switch f := fnv.(type) {
	case *FuncV:
		return e.callFn(f.fn, args, f.bind, pos)
	case *Term:
		e.check("nil function call", e.c.Not(e.c.Eq(f, e.c.Int(0))), pos)
		sig := cc.Value.Type().Underlying().(*types.Signature)
		// a contract on the function type
		if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok {
			if con := e.v.contracts["functype "+tname(n)]; con != nil {
				return e.applyContract(con, append([]Value{f}, args...), nil, sig, pos)
			}
		} else if con := e.v.contracts["functype "+plainName(tname(types.Unalias(cc.Value.Type())))]; con != nil {
			return e.applyContract(con, append([]Value{f}, args...), nil, sig, pos)
		}
		e.used["calls through unknown function values return arbitrary results and change only memory passed to them"] = true
		return e.havocCall("dyn", sig, args, argTypes(sig, nil), pos)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fnv)))
}

var rePlain = regexp.MustCompile(`[^A-Za-z0-9.]+`)

// plainName names a type that has no name: func(*generate.Config) is func_generate.Config.
func plainName(s string) string { return strings.Trim(rePlain.ReplaceAllString(s, "_"), "_") }

func argTypes(sig *types.Signature, recv types.Type) []types.Type {
	var out []types.Type
	if recv != nil {
		out = append(out, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}

func (e *Exec) invoke(recv *Term, it types.Type, m *types.Func, args []Value, pos token.Pos) []Value {
	c := e.c
	e.check("nil interface method call", c.Not(c.IsBox(recv, "inil")), pos)
	// known dynamic type
	if recv.kind == 'k' {
		if bt, ok := e.v.boxTypes[recv.op]; ok {
			if fn := e.v.method(bt, m); fn != nil {
				return e.callFn(fn, append([]Value{e.unbox(recv, bt)}, args...), nil, pos)
			}
		}
	}
	sig := m.Type().(*types.Signature)
	key := "iface " + tname(it) + "." + m.Name()
	con := e.v.contracts[key]
	if con == nil {
		// the interface that declares the method
		for k, x := range e.v.contracts {
			if strings.HasPrefix(k, "iface ") && strings.HasSuffix(k, "."+m.Name()) && x.ifaceMatch(e.v, it, m) {
				con = x
			}
		}
	}
	if con != nil {
		return e.applyContract(con, append([]Value{recv}, args...), nil, sig, pos)
	}
	if m.Name() == "Error" && sig.Params().Len() == 0 {
		return []Value{c.App("u:errtext", c.strSort(), recv)}
	}
	e.used["interface method "+tname(it)+"."+m.Name()+" without contract: arbitrary result, changes only memory passed to it"] = true
	return e.havocCall("inv_"+m.Name(), sig, args, argTypes(sig, nil), pos)
}

func fnKey(fn *ssa.Function) string {
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		n, ok := types.Unalias(t).(*types.Named)
		if ok && n.Obj().Pkg() != nil {
			pk := pkgShort(n.Obj().Pkg())
			if star != "" {
				return pk + ".(*" + n.Obj().Name() + ")." + fn.Name()
			}
			return pk + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	if fn.Pkg != nil {
		return pkgShort(fn.Pkg.Pkg) + "." + fn.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return pkgShort(fn.Object().Pkg()) + "." + fn.Name()
	}
	return fn.String()
}

func pkgShort(p *types.Package) string {
	if p.Path() == modPath {
		return "dataset"
	}
	if strings.HasPrefix(p.Path(), modPath+"/") {
		return p.Path()[len(modPath)+1:]
	}
	return p.Path()
}

func inModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if fn.Parent() != nil {
		return inModule(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	return false
}

func (e *Exec) callFn(fn *ssa.Function, args []Value, binds []Value, pos token.Pos) []Value {
	if fn.Synthetic == "package initializer" {
		e.used["initialisers of imported packages do not touch this package's variables"] = true
		return nil
	}
	key := fnKey(fn)
	if con := e.v.contracts["func "+key]; con != nil && !(e.con != nil && e.con.InlineAll[key]) && !con.BodyOnly {
		return e.applyContract(con, args, fn, fn.Signature, pos)
	}
	if h, ok := intrinsics[key]; ok {
		return h(e, fn, args, pos)
	}
	if con := e.v.contracts["extern "+key]; con != nil {
		return e.applyContract(con, args, fn, fn.Signature, pos)
	}
	// method wrappers and bound methods
	if fn.Blocks != nil && (inModule(fn) || fn.Synthetic != "") {
		if inModule(fn) {
			e.inlined[key] = true
		}
		return e.runFunction(fn, args, binds)
	}
	var rt types.Type
	if fn.Signature.Recv() != nil {
		rt = fn.Signature.Recv().Type()
	}
	e.used["external "+key+": arbitrary result, changes only memory passed to it, no panic"] = true
	return e.havocCall("ext_"+fn.Name(), fn.Signature, args, argTypes(fn.Signature, rt), pos)
}

// havocCall: unknown code returns anything and may write what it is handed.
func (e *Exec) havocCall(name string, sig *types.Signature, args []Value, ats []types.Type, pos token.Pos) []Value {
	nn := e.c.Fresh("alloc", sInt)
	e.assumeRaw(e.c.Le(e.st.next, nn))
	e.st.next = nn
	for i, a := range args {
		if i < len(ats) {
			e.havocReach(a, ats[i], 0)
		}
	}
	return e.freshResults(name, sig)
}

func (e *Exec) freshResults(name string, sig *types.Signature) []Value {
	var out []Value
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, e.freshVal("r_"+name, sig.Results().At(i).Type()))
	}
	return out
}

func (e *Exec) havocReach(a Value, t types.Type, depth int) {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s, ok := a.(*SliceV)
		if !ok {
			return
		}
		if s.ln.num != nil && s.ln.num.Sign() == 0 {
			return
		}
		if depth == 0 {
			// variadic any: values pass through their boxes
			if types.IsInterface(u.Elem()) {
				return
			}
		}
		for _, l := range e.leaves(u.Elem()) {
			k := elemKey(u.Elem()) + l.suf
			h := e.elemHeap(e.st, u.Elem(), l)
			e.heapSet(k, c.Store(h, s.arr, c.Fresh("hc:"+k, arrSort(sInt, l.sort))))
			e.noteWrite(k, s.arr)
		}
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok && isOpaqueStruct(u.Elem()) {
			return
		}
		if at, ok := a.(*Term); ok && at.num != nil {
			return
		}
		ad := e.deref(a, u.Elem())
		if ad.kind == "arrobj" {
			return
		}
		e.storeAddr(ad, e.freshVal("hv", u.Elem()))
	case *types.Interface:
		t, ok := a.(*Term)
		if !ok || t.kind != 'k' || depth > 0 {
			return
		}
		if bt, ok := e.v.boxTypes[t.op]; ok {
			if _, isp := bt.Underlying().(*types.Pointer); isp {
				e.havocReach(e.unbox(t, bt), bt, depth+1)
			}
		}
	}
}

func (e *Exec) builtin(fr *frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Value, pos token.Pos) []Value {
	c := e.c
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if b.Name() == "cap" {
				return []Value{x.cp}
			}
			return []Value{x.ln}
		case *Term:
			t := cc.Args[0].Type().Underlying()
			if mt, ok := t.(*types.Map); ok {
				return []Value{e.mapLenOf(e.st, mt, x)}
			}
			if pt, ok := t.(*types.Pointer); ok {
				return []Value{c.Int(pt.Elem().Underlying().(*types.Array).Len())}
			}
			if _, ok := t.(*types.Chan); ok {
				return []Value{c.Fresh("chanlen", sInt)}
			}
			return []Value{e.strLen(x)}
		case *ArrayV:
			return []Value{c.Int(x.t.Underlying().(*types.Array).Len())}
		}
	case "append":
		s := args[0].(*SliceV)
		el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if st, ok := args[1].(*Term); ok { // append([]byte, string...)
			return []Value{e.appendOp(s, e.strSlice(st), el)}
		}
		return []Value{e.appendOp(s, args[1].(*SliceV), el)}
	case "copy":
		d := args[0].(*SliceV)
		el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if st, ok := args[1].(*Term); ok {
			return []Value{e.copyOp(d, e.strSlice(st), el)}
		}
		return []Value{e.copyOp(d, args[1].(*SliceV), el)}
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		e.mapDelete(mt, args[0].(*Term), e.flatten(args[1], mt.Key())[0])
		return nil
	case "close":
		return nil
	case "print", "println":
		return nil
	case "recover":
		return []Value{c.INil()}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		return []Value{r}
	case "ssa:wrapnilchk":
		return []Value{args[0]}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (e *Exec) mapLenOf(st *State, mt *types.Map, ref *Term) *Term {
	c := e.c
	n := c.Select(e.mapLen(st, mt), ref)
	if e.quant == 0 && !n.bound && !e.factDone[n] {
		e.factDone[n] = true
		p := c.Select(e.mapPres(st, mt), ref)
		k := c.BoundVar("k", e.mapKeySort(mt))
		e.assumeRaw(c.Le(c.Int(0), n))
		w := c.Fresh("mapwit", e.mapKeySort(mt))
		e.assumeRaw(c.Implies(c.Eq(n, c.Int(0)), c.Quant("forall", []*Term{k}, c.Not(c.Select(p, k)))))
		e.assumeRaw(c.Implies(c.Lt(c.Int(0), n), c.Select(p, w)))
	}
	return c.Ite(c.Eq(ref, c.Int(0)), c.Int(0), n)
}

// ---- intrinsics: assumed contracts on dependencies, coded ----

type intrinsic func(e *Exec, fn *ssa.Function, args []Value, pos token.Pos) []Value

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		"fmt.Errorf": newErr("fmt.Errorf"), "errors.New": newErr("errors.New"),
		"fmt.Sprintf":             sprintf,
		"sort.Search":             sortSearch,
		"strings.Join":            stringsJoin,
		"encoding/json.Marshal":   jsonMarshal,
		"encoding/json.Unmarshal": jsonUnmarshal,
	}
}

func newErr(n string) intrinsic {
	return func(e *Exec, fn *ssa.Function, args []Value, pos token.Pos) []Value {
		e.used[n+" returns a new non-nil error"] = true
		err := e.newError()
		if f, ok := e.c.litOf(args[0].(*Term)); ok && n == "fmt.Errorf" && e.con != nil && (len(e.con.InlineAll) > 0 || e.con.mentions("errtext")) {
			// the text starts with the literal part of the format
			if p, _, _ := strings.Cut(f, "%"); p != "" && !strings.HasPrefix("EOF", p) && !strings.HasPrefix(p, "EOF") {
				e.assumeRaw(e.c.Not(e.c.Eq(e.c.App("u:errtext", e.c.strSort(), err), e.c.StrLit("EOF"))))
			}
		}
		if f, ok := e.c.litOf(args[0].(*Term)); ok && n == "errors.New" {
			e.assumeRaw(e.c.Eq(e.c.App("u:errtext", e.c.strSort(), err), args[0].(*Term)))
		} else if sv, isS := args[len(args)-1].(*SliceV); ok && isS && strings.Contains(f, "%w") {
			any := fn.Signature.Params().At(1).Type().Underlying().(*types.Slice).Elem()
			h := e.elemHeap(e.st, any, e.leaves(any)[0])
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					i++
					if f[i] == '%' {
						continue
					}
					if f[i] == 'w' {
						e.used["errors.Is(fmt.Errorf(\"...%w...\", e), e)"] = true
						e.assumeRaw(e.c.App("u:wraps", sBool, err, e.c.Select(e.c.Select(h, sv.arr), e.c.Add(sv.off, e.c.Int(int64(k))))))
					}
					k++
				}
			}
		}
		return []Value{err}
	}
}

// sortSearch: binary search. Whatever f is, the result k has f(k) when k < n and not f(k-1) when k > 0.
func sortSearch(e *Exec, fn *ssa.Function, args []Value, pos token.Pos) []Value {
	c := e.c
	f, ok := args[1].(*FuncV)
	if !ok {
		panic(unsupported("sort.Search of an unknown function"))
	}
	e.used["sort.Search(n, f) calls f with indices in [0, n) only and returns k in [0, n] with f(k) if k < n and !f(k-1) if k > 0"] = true
	n := args[0].(*Term)
	k := c.Fresh("search", sInt)
	e.assume(c.And(c.Le(c.Int(0), k), c.Implies(c.Le(c.Int(0), n), c.Le(k, n))))
	run := func(i *Term, under *Term) *Term {
		save := e.st
		e.st = save.clone()
		e.st.pc = c.And(save.pc, under)
		vs := e.callFn(f.fn, []Value{i}, f.bind, pos)
		for h, t := range save.heap {
			if e.st.heap[h] != t {
				panic(unsupported("sort.Search of a function with effects"))
			}
		}
		e.st = save
		return vs[0].(*Term)
	}
	i := c.Fresh("probe", sInt)
	run(i, c.And(c.Le(c.Int(0), i), c.Lt(i, n)))
	np := e.nopanic
	e.nopanic = false
	below, above := c.Lt(k, n), c.Lt(c.Int(0), k)
	e.assume(c.Implies(below, run(k, below)))
	e.assume(c.Implies(above, c.Not(run(c.Sub(k, c.Int(1)), above))))
	e.nopanic = np
	e.searched = k
	return []Value{k}
}

// newError is a fresh error value, different from the package-level ones.
func (e *Exec) newError() *Term {
	id := e.alloc("err")
	return e.c.IOther(e.c.Int(1), id)
}

func sprintf(e *Exec, fn *ssa.Function, args []Value, pos token.Pos) []Value {
	c := e.c
	e.used["fmt.Sprintf concatenates literal text and rendered arguments"] = true
	f, ok := c.litOf(args[0].(*Term))
	sv := args[1].(*SliceV)
	if !ok || (sv.ln.num == nil) {
		return []Value{c.Fresh("sprintf", c.strSort())}
	}
	any := fn.Signature.Params().At(1).Type().Underlying().(*types.Slice).Elem()
	h := e.elemHeap(e.st, any, e.leaves(any)[0])
	arg := func(i int) *Term { return c.Select(c.Select(h, sv.arr), c.Add(sv.off, c.Int(int64(i)))) }
	res := c.StrLit("")
	ai := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		spec := ""
		for i < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[i])) {
			spec += string(f[i])
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if lit != "" {
			res = e.strCat(res, c.StrLit(lit))
			lit = ""
		}
		a := arg(ai)
		ai++
		var piece *Term
		st := types.Typ[types.String]
		if spec == "" && (f[i] == 's' || f[i] == 'v') && a.kind == 'k' && isStringBox(e.v.boxTypes[a.op]) {
			piece = e.flatten(e.unbox(a, e.v.boxTypes[a.op]), st)[0]
		} else if spec == "" && (f[i] == 's' || f[i] == 'v') && a.kind == 'k' && e.stringer(a) != nil {
			piece = e.stringer(a)
		} else if spec == "" && (f[i] == 'd' || f[i] == 'v') && a.kind == 'k' && isPlainInt(e.v.boxTypes[a.op]) {
			piece = c.App("u:itoa", c.strSort(), e.flatten(e.unbox(a, e.v.boxTypes[a.op]), types.Typ[types.Int])[0])
		} else {
			piece = c.App("fmt%"+spec+string(f[i]), c.strSort(), a)
		}
		res = e.strCat(res, piece)
	}
	if lit != "" {
		res = e.strCat(res, c.StrLit(lit))
	}
	return []Value{res}
}

func isPlainInt(t types.Type) bool {
	b, ok := types.Unalias(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringBox(t types.Type) bool {
	if t == nil {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.NumMethods() > 0 {
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == "String" || n.Method(i).Name() == "Error" {
				return false
			}
		}
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// stringer inlines the String method of a module type.
func (e *Exec) stringer(a *Term) *Term {
	bt := e.v.boxTypes[a.op]
	if bt == nil {
		return nil
	}
	n, ok := types.Unalias(bt).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == "String" {
			fn := e.v.prog.FuncValue(m)
			if fn == nil {
				return nil
			}
			r := e.callFn(fn, []Value{e.unbox(a, bt)}, nil, token.NoPos)
			return r[0].(*Term)
		}
	}
	return nil
}

func stringsJoin(e *Exec, fn *ssa.Function, args []Value, pos token.Pos) []Value {
	c := e.c
	e.used["strings.Join concatenates the elements in order with the separator between them"] = true
	sv := args[0].(*SliceV)
	sep := args[1].(*Term)
	h := e.heapGet(e.st, elemKey(types.Typ[types.String]), arrSort(sInt, arrSort(sInt, c.strSort())))
	join := func(cont, off, n *Term) *Term { return c.App("strjoin", c.strSort(), cont, off, n, sep) }
	if !sep.bound {
		for _, ja := range e.joinLog {
			if ja.c0.bound || ja.c1.bound {
				continue
			}
			r := join(ja.c0, ja.off, ja.n0)
			n := ja.n0
			for i, x := range ja.added {
				cat := e.strCat(r, e.strCat(sep, x))
				if i == 0 && n.num != nil && n.num.Sign() == 0 {
					r = x
				} else if i == 0 {
					r = c.Ite(c.Eq(n, c.Int(0)), x, cat)
				} else {
					r = cat
				}
			}
			e.assumeRaw(c.Eq(join(ja.c1, ja.off, ja.n1), r))
			if ja.n0.num == nil {
				e.assumeRaw(c.Implies(c.Eq(ja.n0, c.Int(0)), c.Eq(join(ja.c0, ja.off, ja.n0), c.StrLit(""))))
			}
		}
	}
	j := join(c.Select(h, sv.arr), sv.off, sv.ln)
	e.assumeRaw(c.Implies(c.Eq(sv.ln, c.Int(0)), c.Eq(j, c.StrLit(""))))
	return []Value{j}
}
