package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is a symbolic machine state at a program point.
type State struct {
	heap map[string]*Term
	next *Term
	pc   *Term
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), next: s.next, pc: s.pc}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

// Obl is one proof obligation.
type Obl struct {
	neg     *Term
	Name    string
	Kind    string
	Tags    []string
	Func    string
	Pos     string
	Text    string
	nf      int
	guard   *Term
	goal    *Term
	extra   []*Term
	want    string // "unsat" normally; "notunsat" for reachability
	evals   []namedTerm
	script  string
	Status  string // proved, failed, unknown
	Solver  string
	Seconds float64
	Output  string
}

type namedTerm struct {
	name string
	t    *Term
}

type writeRec struct {
	key string
	ref *Term
}

// Exec symbolically executes one function under contract.
type Exec struct {
	rootRets []retRec // the returns of the function under verification
	searched *Term
	v            *Verifier
	c            *Ctx
	st           *State
	axioms       []*Term
	facts        []*Term
	obls         []*Obl
	joinLog      []joinApp
	jsonEncs     []jsonEnc
	funcs        map[*Term]*FuncV
	addrs        map[*Term]*AddrV
	addrEsc      map[string]bool
	allowEsc     bool
	factDone     map[*Term]bool
	keySort      map[string]Sort
	quant        int
	writes       []*[]writeRec
	root         *ssa.Function
	con          *Contract
	env0         *specEnv
	allowed      map[string][]modLoc
	baseOf       map[*Term]*Term // a forgotten heap component and what it was before
	old          *State
	stack        []*ssa.Function
	loopN        int
	dry          int
	curLoop      *loopCtx
	lastLoop     *loopCtx // the last outermost loop, for the names of asserts at the return
	curFrame     *frame
	opaqueStored map[string]bool
	zeroed       []string
	nopanic      bool
	assumed      map[string]bool
	inlined      map[string]bool
	used         map[string]bool
	recApps      map[string]*recDef
	unfolded     map[*Term]bool
	iterN        int
	frames       int
	steps        int
	globAl       map[string]bool
	doneLoops    map[int]bool
	loopOrdOf    map[string]int
	callPath     string
	curPos       token.Pos
	trivial      int
	oblNames     map[string]int
	unfDepth     int
	nopanicRoot  *ssa.Function
}

type frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Value
	edges  map[[2]int]*State
	defers []deferRec
	rets   []retRec
	binds  []Value
	order  []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	path   string
	panics []*State
	parent *frame // the frame that runs this one
}

type deferRec struct {
	pc   *Term
	call *ssa.CallCommon
	fnv  Value
	args []Value
	pos  token.Pos
}

type retRec struct {
	st   *State
	vals []Value
}

type loopCtx struct {
	iter   *Term
	phis   map[*ssa.Phi]Value
	fr     *frame
	header *ssa.BasicBlock
	outer  *loopCtx
	visKey string
	entry  *State
}

func (e *Exec) assumeRaw(t *Term) {
	if t.isTrue() {
		return
	}
	e.facts = append(e.facts, t)
	e.unfoldIn(t)
}

func (e *Exec) assume(t *Term) { e.assumeRaw(e.c.Implies(e.st.pc, t)) }

func (e *Exec) oblige(kind, text string, tags []string, goal *Term, pos token.Pos) {
	e.obligeNamed("", kind, text, tags, goal, pos)
}

func (e *Exec) obligeNamed(name, kind, text string, tags []string, goal *Term, pos token.Pos) {
	if e.dry > 0 {
		return
	}
	if name == "" {
		name = kind
	}
	fnName := e.con.Name
	base := fnName + ": " + name
	e.oblNames[base]++
	if k := e.oblNames[base]; k > 1 {
		base = fmt.Sprintf("%s #%d", base, k)
	}
	g, extra := e.skolem(goal)
	for _, x := range extra {
		e.unfoldIn(x)
	}
	e.unfoldIn(g)
	o := &Obl{Name: base, Kind: kind, Tags: tags, Func: fnName, Text: text, nf: len(e.facts), guard: e.st.pc, goal: g, extra: extra, want: "unsat"}
	if pos.IsValid() {
		p := e.v.fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, e.v.repo+"/"), p.Line)
	}
	if e.env0 != nil {
		o.evals = e.env0.evals
	}
	e.obls = append(e.obls, o)
}

// skolem strips positive universal quantifiers from a goal.
func (e *Exec) skolem(g *Term) (*Term, []*Term) {
	var hyps []*Term
	for {
		if g.kind == 'q' && g.op == "forall" {
			n := len(g.args)
			m := map[*Term]*Term{}
			for _, v := range g.args[:n-1] {
				m[v] = e.c.Fresh("sk_"+strings.Split(v.op, "!")[0], v.sort)
			}
			g = e.c.Subst(g.args[n-1], m)
			continue
		}
		if g.op == "!pat" {
			g = g.args[0]
			continue
		}
		if g.kind == 'o' && g.op == "=>" {
			hyps = append(hyps, g.args[0])
			g = g.args[1]
			continue
		}
		return e.skolemIn(g), hyps
	}
}

// skolemIn instantiates universal quantifiers in positive positions below and/or/=>.
func (e *Exec) skolemIn(g *Term) *Term {
	c := e.c
	switch {
	case g.op == "!pat":
		return e.skolemIn(g.args[0])
	case g.kind == 'q' && g.op == "forall":
		n := len(g.args)
		m := map[*Term]*Term{}
		for _, v := range g.args[:n-1] {
			m[v] = c.Fresh("sk_"+strings.Split(v.op, "!")[0], v.sort)
		}
		return e.skolemIn(c.Subst(g.args[n-1], m))
	case g.kind == 'o' && (g.op == "or" || g.op == "and"):
		as := make([]*Term, len(g.args))
		for i, a := range g.args {
			as[i] = e.skolemIn(a)
		}
		if g.op == "or" {
			return c.Or(as...)
		}
		return c.And(as...)
	case g.kind == 'o' && g.op == "=>":
		return c.Implies(g.args[0], e.skolemIn(g.args[1]))
	}
	return g
}

// check is an implicit run-time check: an obligation under nopanic, else an assumption.
func (e *Exec) check(kind string, cond *Term, pos token.Pos) {
	if cond.isTrue() || e.quant > 0 {
		return
	}
	if e.nopanic {
		e.oblige("no-panic "+kind, kind, e.con.PanicTags, cond, pos)
	}
	e.assume(cond)
}

func (e *Exec) noteWrite(key string, ref *Term) {
	for _, l := range e.writes {
		*l = append(*l, writeRec{key, ref})
	}
}

func (e *Exec) alloc(prefix string) *Term {
	r := e.st.next
	e.st.next = e.c.Add(r, e.c.Int(1))
	return r
}

func (e *Exec) allocZero(t types.Type) *Term {
	r := e.alloc("")
	switch u := t.Underlying().(type) {
	case *types.Array:
		for _, l := range e.leaves(u.Elem()) {
			k := elemKey(u.Elem()) + l.suf
			s := arrSort(sInt, arrSort(sInt, l.sort))
			h := e.heapGet(e.st, k, s)
			e.heapSet(k, e.c.Store(h, r, e.c.ConstArr(arrSort(sInt, l.sort), e.zeroLeaf(l))))
			e.noteWrite(k, r)
		}
	default:
		e.storeAddr(e.deref(r, t), e.zero(t))
	}
	// ghost state of an object that did not exist before
	for _, n := range e.zeroedGhosts() {
		g := e.v.ghosts[n]
		k := r
		if g.Key == sIface {
			k = e.box(r, types.NewPointer(t))
		}
		e.assumeRaw(e.c.Eq(e.c.Select(e.ghostGet(e.st, g), k), e.c.Int(0)))
	}
	return r
}

// ---- running functions ----

func (e *Exec) runFunction(fn *ssa.Function, args []Value, binds []Value) []Value {
	if fn.Blocks == nil {
		panic(unsupported("function without body " + fn.String()))
	}
	for _, f := range e.stack {
		if f == fn {
			panic(unsupported("recursive function without contract: " + fn.String()))
		}
	}
	if len(e.stack) > 24 {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &frame{fn: fn, vals: map[ssa.Value]Value{}, edges: map[[2]int]*State{}, binds: binds, parent: e.curFrame}
	e.curFrame = fr
	defer func() { e.curFrame = fr.parent }()
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.vals[f] = binds[i]
	}
	fr.order = rpo(fn)
	fr.loops = naturalLoops(fn)
	entry := e.st
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.order {
		all[b] = true
	}
	saveLoop := e.curLoop
	e.runRegion(fr, all, fn.Blocks[0], entry, nil)
	e.curLoop = saveLoop
	if len(fr.rets) == 0 {
		e.st = entry.clone()
		e.st.pc = e.c.False()
		var out []Value
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			out = append(out, e.zero(res.At(i).Type()))
		}
		return out
	}
	if len(e.stack) == 1 {
		e.rootRets = fr.rets
	}
	var sts []*State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	st, conds := e.mergeStates(sts)
	e.st = st
	res := fn.Signature.Results()
	var out []Value
	for i := 0; i < res.Len(); i++ {
		var vs []Value
		for _, r := range fr.rets {
			vs = append(vs, r.vals[i])
		}
		out = append(out, e.mergeVals(vs, conds, res.At(i).Type()))
	}
	return out
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := out[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					out[h] = body
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	return out
}

// mergeStates joins states; conds[i] selects state i.
func (e *Exec) mergeStates(sts []*State) (*State, []*Term) {
	c := e.c
	var live []*State
	for _, s := range sts {
		if !s.pc.isFalse() {
			live = append(live, s)
		}
	}
	conds := make([]*Term, len(sts))
	if len(live) == 0 {
		for i := range conds {
			conds[i] = c.True()
		}
		s := sts[0].clone()
		s.pc = c.False()
		return s, conds
	}
	// strip common conjuncts for the selector conditions
	common := map[*Term]int{}
	for _, s := range live {
		for _, t := range conj(s.pc) {
			common[t]++
		}
	}
	strip := func(p *Term) *Term {
		var out []*Term
		for _, t := range conj(p) {
			if common[t] != len(live) {
				out = append(out, t)
			}
		}
		return c.And(out...)
	}
	for i, s := range sts {
		if s.pc.isFalse() {
			conds[i] = c.False()
		} else {
			conds[i] = strip(s.pc)
		}
	}
	if len(live) == 1 {
		return live[0].clone(), conds
	}
	n := &State{heap: map[string]*Term{}}
	var pcs []*Term
	for _, s := range live {
		pcs = append(pcs, s.pc)
	}
	n.pc = pcs[0]
	for _, p := range pcs[1:] {
		n.pc = c.Or(n.pc, p)
	}
	keys := map[string]bool{}
	for _, s := range live {
		for k := range s.heap {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var acc *Term
		for i := len(sts) - 1; i >= 0; i-- {
			if sts[i].pc.isFalse() {
				continue
			}
			h := e.heapGet(sts[i], k, e.keySort[k])
			if acc == nil {
				acc = h
			} else {
				acc = c.Ite(conds[i], h, acc)
			}
		}
		n.heap[k] = acc
	}
	// allocation frontier
	base, off := offs(live[0].next)
	same := true
	for _, s := range live[1:] {
		b, o := offs(s.next)
		if b != base {
			same = false
			break
		}
		if o.Cmp(off) > 0 {
			off = o
		}
	}
	if same {
		n.next = c.addOff(base, off)
	} else {
		n.next = c.Fresh("alloc", sInt)
		for _, s := range live {
			e.assumeRaw(c.Implies(s.pc, c.Le(s.next, n.next)))
		}
		e.assumeRaw(c.Lt(c.Int(0), n.next))
	}
	return n, conds
}

func (e *Exec) mergeVals(vs []Value, conds []*Term, t types.Type) Value {
	if len(vs) == 1 {
		return vs[0]
	}
	allSame := true
	first := -1
	for i := range vs {
		if conds[i].isFalse() {
			continue
		}
		if first < 0 {
			first = i
		} else if vs[i] != vs[first] {
			allSame = false
		}
	}
	if first < 0 {
		return vs[0]
	}
	if allSame {
		return vs[first]
	}
	if it, ok := vs[first].(*IterV); ok {
		return it
	}
	var acc []*Term
	for i := len(vs) - 1; i >= 0; i-- {
		if conds[i].isFalse() {
			continue
		}
		ts := e.flatten(vs[i], t)
		if acc == nil {
			acc = append([]*Term{}, ts...)
			continue
		}
		for j := range acc {
			acc[j] = e.c.Ite(conds[i], ts[j], acc[j])
		}
	}
	return e.unflatten(t, acc)
}

// runRegion executes the blocks of region in order. header, if not nil, is the loop
// header whose phis are already set.
func (e *Exec) runRegion(fr *frame, region map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, entry *State, header *ssa.BasicBlock) {
	inner := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.order {
		if !region[b] || inner[b] {
			continue
		}
		if b == start {
			if header == nil && fr.loops[b] != nil {
				// entry block is itself a loop header
				e.runLoop(fr, b, region, entry, nil, nil)
				for x := range fr.loops[b] {
					inner[x] = true
				}
				continue
			}
			e.st = entry.clone()
			e.runBlock(fr, b, header == b)
			continue
		}
		var sts []*State
		var idx []int
		body := fr.loops[b]
		for i, p := range b.Preds {
			if body != nil && body[p] {
				continue // back edge
			}
			s, ok := fr.edges[[2]int{p.Index, e.succIndex(p, b, i)}]
			if !ok {
				continue
			}
			sts = append(sts, s)
			idx = append(idx, i)
		}
		if len(sts) == 0 {
			if body != nil {
				for x := range body {
					inner[x] = true
				}
			}
			continue
		}
		st, conds := e.mergeStates(sts)
		if body != nil {
			init := map[*ssa.Phi]Value{}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				var vs []Value
				for _, i := range idx {
					vs = append(vs, e.val(fr, ph.Edges[i]))
				}
				init[ph] = e.mergeVals(vs, conds, ph.Type())
			}
			e.runLoop(fr, b, region, st, init, nil)
			for x := range body {
				inner[x] = true
			}
			continue
		}
		e.st = st
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var vs []Value
			for _, i := range idx {
				vs = append(vs, e.val(fr, ph.Edges[i]))
			}
			fr.vals[ph] = e.mergeVals(vs, conds, ph.Type())
		}
		e.runBlock(fr, b, true)
	}
}

// succIndex numbers edges so that duplicate edges between two blocks stay apart.
func (e *Exec) succIndex(p, b *ssa.BasicBlock, predIdx int) int {
	// count how many earlier preds equal p
	k := 0
	for i := 0; i < predIdx; i++ {
		if b.Preds[i] == p {
			k++
		}
	}
	for j, s := range p.Succs {
		if s == b {
			if k == 0 {
				return j
			}
			k--
		}
	}
	panic("succIndex")
}

func (e *Exec) setEdge(fr *frame, b *ssa.BasicBlock, i int, st *State) {
	if st.pc.isFalse() {
		delete(fr.edges, [2]int{b.Index, i})
		return
	}
	fr.edges[[2]int{b.Index, i}] = st
}

// loopOrdinal identifies a loop by its place in the source order of first execution.
func (e *Exec) loopOrdinal(fr *frame, h *ssa.BasicBlock) int {
	k := fmt.Sprintf("%s#%s#%d", e.callPath, fr.fn.String(), h.Index)
	if n, ok := e.loopOrdOf[k]; ok {
		return n
	}
	e.loopN++
	e.loopOrdOf[k] = e.loopN
	return e.loopN
}

func (e *Exec) loopDepthOwner() {}

func (e *Exec) runLoop(fr *frame, h *ssa.BasicBlock, region map[*ssa.BasicBlock]bool, entry *State, init map[*ssa.Phi]Value, _ interface{}) {
	c := e.c
	ord := e.loopOrdinal(fr, h)
	body := fr.loops[h]
	var spec *LoopSpec
	if e.con != nil {
		spec = e.con.Loops[ord]
	}
	if e.tryUnroll(fr, h, body, entry, init, spec) {
		return
	}
	outer := e.curLoop
	// entry obligations
	iter0 := c.Int(0)
	lc0 := &loopCtx{iter: iter0, phis: init, fr: fr, header: h, outer: outer, entry: entry}
	e.st = entry
	if spec != nil {
		e.curLoop = lc0
		for _, inv := range spec.Invs {
			g, skip := e.specBoolTry(inv, e.st)
			if skip {
				continue
			}
			e.obligeNamed(fmt.Sprintf("loop %d entry: %s", ord, inv.Label), "loop-entry", inv.Text, inv.Tags, g, h.Instrs[0].Pos())
		}
		e.curLoop = outer
	}
	mod := map[string]*modInfo{}
	lin := map[*ssa.Phi]*big.Int{}
	owned := map[*ssa.Phi]bool{}
	const maxPass = 6
	for pass := 0; ; pass++ {
		if pass > maxPass {
			panic(unsupported("loop modification analysis does not converge"))
		}
		final := false
		if pass > 0 {
			final = true
		}
		// save
		nf, no := len(e.facts), len(e.obls)
		oblSnap := map[string]int{}
		for k, v := range e.oblNames {
			oblSnap[k] = v
		}
		fd := map[*Term]bool{}
		for k := range e.factDone {
			fd[k] = true
		}
		uf := map[*Term]bool{}
		for k := range e.unfolded {
			uf[k] = true
		}
		rets := len(fr.rets)
		ndef := len(fr.defers)
		loopN := e.loopN
		mark := c.n
		st := entry.clone()
		e.st = st
		iter := c.Fresh("iter", sInt)
		e.assumeRaw(c.Le(c.Int(0), iter))
		st.next = c.Fresh("alloc", sInt)
		e.assumeRaw(c.Le(entry.next, st.next))
		e.assumeRaw(c.Lt(c.Int(0), st.next))
		nextBase := st.next
		keys := make([]string, 0, len(mod))
		for k := range mod {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			e.havocKey(st, k, mod[k], entry)
		}
		lc := &loopCtx{iter: iter, phis: map[*ssa.Phi]Value{}, fr: fr, header: h, outer: outer, entry: entry}
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if it, ok := init[ph].(*IterV); ok {
				fr.vals[ph] = it
				continue
			}
			v := e.freshVal("phi_"+ph.Comment, ph.Type())
			if step, ok := lin[ph]; ok {
				it0 := e.flatten(init[ph], ph.Type())[0]
				v = c.Add(it0, c.Mul(c.Big(step), iter))
				e.typeFacts(v, ph.Type())
			}
			if owned[ph] {
				sv := v.(*SliceV)
				iv := init[ph].(*SliceV)
				e.assumeRaw(c.Or(c.Eq(sv.arr, iv.arr), c.Le(entry.next, sv.arr)))
			}
			fr.vals[ph] = v
			lc.phis[ph] = v
		}
		e.curLoop = lc
		if outer == nil {
			e.lastLoop = lc
		}
		if spec != nil {
			for _, inv := range spec.Invs {
				g, skip := e.specBoolTry(inv, e.st)
				if skip {
					continue
				}
				e.assume(g)
			}
		}
		frameKeys := e.frameKeys(mod)
		for _, k := range frameKeys {
			if g := e.frameFormula(k, st); g != nil {
				e.assumeRaw(g)
			}
		}
		var log []writeRec
		e.writes = append(e.writes, &log)
		if !final {
			e.dry++
		}
		e.headerBounds(fr, h, body, lc, init, lin)
		e.runRegion(fr, body, h, e.st, h)
		if !final {
			e.dry--
		}
		e.writes = e.writes[:len(e.writes)-1]
		// gather back edges
		var backs []*State
		var backIdx []int
		for i, p := range h.Preds {
			if !body[p] {
				continue
			}
			if s, ok := fr.edges[[2]int{p.Index, e.succIndex(p, h, i)}]; ok {
				backs = append(backs, s)
				backIdx = append(backIdx, i)
			}
		}
		// classify writes
		changed := false
		addMod := func(k string, m *modInfo) {
			o := mod[k]
			if o == nil {
				mod[k] = m
				changed = true
				return
			}
			if o.merge(m) {
				changed = true
			}
		}
		for _, w := range log {
			if w.ref == nil {
				addMod(w.key, &modInfo{all: true})
				continue
			}
			for _, r := range iteLeaves(w.ref) {
				switch {
				case c.constsBefore(r, mark):
					addMod(w.key, &modInfo{refs: []*Term{r}})
				case isFreshRef(r, nextBase, mark):
					addMod(w.key, &modInfo{fresh: true})
				default:
					// the backing array of an owned slice phi
					if ph := ownedPhi(r, lc, owned); ph != nil {
						iv := init[ph].(*SliceV)
						addMod(w.key, &modInfo{fresh: true, refs: []*Term{iv.arr}})
					} else {
						addMod(w.key, &modInfo{all: true})
					}
				}
			}
		}
		// phi shape
		newLin := map[*ssa.Phi]*big.Int{}
		newOwned := map[*ssa.Phi]bool{}
		for ph, v := range lc.phis {
			if t, ok := v.(*Term); ok && t.sort == sInt && isIntType(ph.Type()) {
				var step *big.Int
				good := len(backs) > 0
				for _, i := range backIdx {
					bt, ok := e.val(fr, ph.Edges[i]).(*Term)
					if !ok {
						good = false
						break
					}
					d := c.Sub(bt, t)
					if d.num == nil {
						good = false
						break
					}
					if step != nil && step.Cmp(d.num) != 0 {
						good = false
						break
					}
					step = d.num
				}
				if good {
					newLin[ph] = step
				}
			}
			if sv, ok := v.(*SliceV); ok {
				good := true
				for _, i := range backIdx {
					bv, ok := e.val(fr, ph.Edges[i]).(*SliceV)
					if !ok {
						good = false
						break
					}
					for _, r := range iteLeaves(bv.arr) {
						if r == sv.arr || isFreshRef(r, nextBase, mark) {
							continue
						}
						good = false
					}
				}
				if good {
					newOwned[ph] = true
				}
			}
		}
		if !final {
			for ph, s := range newLin {
				lin[ph] = s
			}
			for ph := range newOwned {
				if !owned[ph] {
					owned[ph] = true
				}
			}
			// writes through owned phis were classified before owned was known: redo classification
			mod = map[string]*modInfo{}
			for _, w := range log {
				if w.ref == nil {
					addMod(w.key, &modInfo{all: true})
					continue
				}
				for _, r := range iteLeaves(w.ref) {
					switch {
					case c.constsBefore(r, mark):
						addMod(w.key, &modInfo{refs: []*Term{r}})
					case isFreshRef(r, nextBase, mark):
						addMod(w.key, &modInfo{fresh: true})
					default:
						if ph := ownedPhi(r, lc, owned); ph != nil {
							addMod(w.key, &modInfo{fresh: true, refs: []*Term{init[ph].(*SliceV).arr}})
						} else {
							addMod(w.key, &modInfo{all: true})
						}
					}
				}
			}
			changed = true
		} else {
			for ph := range lin {
				if s, ok := newLin[ph]; !ok || s.Cmp(lin[ph]) != 0 {
					delete(lin, ph)
					changed = true
				}
			}
			for ph := range owned {
				if !newOwned[ph] {
					delete(owned, ph)
					changed = true
				}
			}
		}
		if !final || changed {
			// roll back and repeat
			e.facts = e.facts[:nf]
			e.obls = e.obls[:no]
			e.oblNames = oblSnap
			e.factDone = fd
			e.unfolded = uf
			fr.rets = fr.rets[:rets]
			fr.defers = fr.defers[:ndef]
			_ = loopN
			for b := range body {
				for i := range b.Succs {
					delete(fr.edges, [2]int{b.Index, i})
				}
			}
			e.curLoop = outer
			continue
		}
		// the function's frame is an invariant of each of its loops
		for _, k := range frameKeys {
			for i, s := range append([]*State{entry}, backs...) {
				g := e.frameFormula(k, s)
				if g == nil || g == c.True() {
					continue
				}
				e.st = s
				w := "preserves"
				if i == 0 {
					w = "entry"
				}
				e.obligeNamed(fmt.Sprintf("loop %d %s: frame of %s", ord, w, k), "loop-frame", "only the modifies clause changes", nil, g, h.Instrs[0].Pos())
			}
		}
		// preservation
		if spec != nil {
			for k, s := range backs {
				e.st = s
				bl := &loopCtx{iter: c.Add(iter, c.Int(1)), phis: map[*ssa.Phi]Value{}, fr: fr, header: h, outer: outer, entry: entry}
				for ph := range lc.phis {
					bl.phis[ph] = e.val(fr, ph.Edges[backIdx[k]])
				}
				e.curLoop = bl
				for _, inv := range spec.Invs {
					g, skip := e.specBoolTry(inv, s)
					if skip {
						continue
					}
					e.obligeNamed(fmt.Sprintf("loop %d preserves: %s", ord, inv.Label), "loop-preserve", inv.Text, inv.Tags, g, h.Instrs[0].Pos())
				}
			}
			e.curLoop = lc
		}
		e.curLoop = outer
		e.doneLoops[ord] = true
		return
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// headerBounds adds the bound that a counting loop's own test implies at its header.
func (e *Exec) headerBounds(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, lc *loopCtx, init map[*ssa.Phi]Value, lin map[*ssa.Phi]*big.Int) {
	// header ends in "if X < N goto body else exit" where X = phi+k and phi steps by +1
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !body[h.Succs[0]] || body[h.Succs[1]] {
		return
	}
	bo, ok := last.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	get := func(v ssa.Value) (ph *ssa.Phi, k int64, ok bool) {
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == h {
				return x, 0, true
			}
		case *ssa.BinOp:
			if x.Block() == h && (x.Op == token.ADD) {
				if p, ok2 := x.X.(*ssa.Phi); ok2 && p.Block() == h {
					if cst, ok3 := x.Y.(*ssa.Const); ok3 {
						return p, cst.Int64(), true
					}
				}
			}
		}
		return nil, 0, false
	}
	inv := func(v ssa.Value) *Term {
		// value must be defined outside the loop
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			// len(x) of an outside slice is also invariant
			if call, ok := v.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					a := call.Call.Args[0]
					if in2, ok := a.(ssa.Instruction); ok && body[in2.Block()] {
						return nil
					}
					if sv, ok := e.val(fr, a).(*SliceV); ok {
						return sv.ln
					}
				}
			}
			return nil
		}
		t, _ := e.val(fr, v).(*Term)
		return t
	}
	c := e.c
	x, y, op := bo.X, bo.Y, bo.Op
	if op == token.GTR || op == token.GEQ {
		// N > X  is  X < N
		if _, _, ok := get(y); ok {
			x, y = y, x
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
	}
	ph, k, ok := get(x)
	if !ok {
		return
	}
	step := lin[ph]
	if step == nil {
		return
	}
	n := inv(y)
	if n == nil || n.sort != sInt {
		return
	}
	X := c.Add(lc.phis[ph].(*Term), c.Int(k))
	X0 := c.Add(e.flatten(init[ph], ph.Type())[0], c.Int(k))
	max := func(a, b *Term) *Term { return c.Ite(c.Le(a, b), b, a) }
	min := func(a, b *Term) *Term { return c.Ite(c.Le(a, b), a, b) }
	switch {
	case (op == token.LSS) && step.Cmp(big.NewInt(1)) == 0:
		e.assumeRaw(c.Le(X, max(n, X0)))
	case op == token.LEQ && step.Cmp(big.NewInt(1)) == 0:
		e.assumeRaw(c.Le(X, max(c.Add(n, c.Int(1)), X0)))
	case op == token.GEQ && step.Cmp(big.NewInt(-1)) == 0:
		e.assumeRaw(c.Le(min(c.Sub(n, c.Int(1)), X0), X))
	case op == token.GTR && step.Cmp(big.NewInt(-1)) == 0:
		e.assumeRaw(c.Le(min(n, X0), X))
	}
}

type modInfo struct {
	all   bool
	fresh bool
	refs  []*Term
}

func (m *modInfo) merge(o *modInfo) bool {
	ch := false
	if o.all && !m.all {
		m.all = true
		ch = true
	}
	if m.all {
		return ch
	}
	if o.fresh && !m.fresh {
		m.fresh = true
		ch = true
	}
	for _, r := range o.refs {
		found := false
		for _, x := range m.refs {
			if x == r {
				found = true
			}
		}
		if !found {
			m.refs = append(m.refs, r)
			ch = true
		}
	}
	return ch
}

func iteLeaves(t *Term) []*Term {
	if t.kind == 'o' && t.op == "ite" {
		return append(iteLeaves(t.args[1]), iteLeaves(t.args[2])...)
	}
	return []*Term{t}
}

// constsBefore tells whether every constant in t was declared before the mark.
func (c *Ctx) constsBefore(t *Term, mark int) bool {
	if t.id <= mark {
		return true
	}
	if len(t.args) == 0 {
		return t.kind != 'c' && t.kind != 'b'
	}
	for _, a := range t.args {
		if !c.constsBefore(a, mark) {
			return false
		}
	}
	return true
}

func isFreshRef(r, nextBase *Term, mark int) bool {
	b, o := offs(r)
	if b == nil || o.Sign() < 0 {
		return false
	}
	return b == nextBase || (b.kind == 'c' && strings.HasPrefix(b.op, "alloc!") && b.id > mark)
}

func ownedPhi(r *Term, lc *loopCtx, owned map[*ssa.Phi]bool) *ssa.Phi {
	for ph, v := range lc.phis {
		if sv, ok := v.(*SliceV); ok && sv.arr == r && owned[ph] {
			return ph
		}
	}
	return nil
}

// havocKey forgets a heap component as far as the loop may change it.
func (e *Exec) havocKey(st *State, k string, m *modInfo, entry *State) {
	c := e.c
	s := e.keySort[k]
	old := e.heapGet(entry, k, s)
	if m.all || !strings.HasPrefix(string(s), "(Array ") || strings.HasPrefix(k, "V:") || strings.HasPrefix(k, "I:") || m.fresh && !strings.HasPrefix(string(s), "(Array Int") {
		st.heap[k] = c.Fresh("hv:"+k, s)
		e.baseOf[st.heap[k]] = old
		return
	}
	_, vs := splitArr(s)
	if !m.fresh {
		h := old
		for _, r := range m.refs {
			h = c.Store(h, r, c.Fresh("hc:"+k, vs))
		}
		st.heap[k] = h
		return
	}
	h := c.Fresh("hf:"+k, s)
	e.baseOf[h] = old
	r := c.BoundVar("r", sInt)
	cond := []*Term{c.Lt(r, entry.next)}
	for _, x := range m.refs {
		cond = append(cond, c.Not(c.Eq(r, x)))
	}
	e.assumeRaw(c.Quant("forall", []*Term{r}, c.Implies(c.And(cond...), c.Eq(c.Select(h, r), c.Select(old, r)))))
	st.heap[k] = h
}

// tryUnroll runs a loop concretely when its spec asks for it.
func (e *Exec) tryUnroll(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry *State, init map[*ssa.Phi]Value, spec *LoopSpec) bool {
	max := 0
	if spec != nil && spec.Unroll > 0 {
		max = spec.Unroll
	} else if spec == nil {
		max = e.constTrip(fr, h, body, init)
	}
	if max == 0 {
		return false
	}
	// exits accumulate per edge
	exits := map[[2]int][]*State{}
	exitVals := map[[2]int][]map[ssa.Value]Value{}
	cur := entry
	phis := init
	outer := e.curLoop
	done := false
	for it := 0; it <= max; it++ {
		for b := range body {
			for i := range b.Succs {
				delete(fr.edges, [2]int{b.Index, i})
			}
		}
		for ph, v := range phis {
			fr.vals[ph] = v
		}
		e.curLoop = &loopCtx{iter: e.c.Int(int64(it)), phis: phis, fr: fr, header: h, outer: outer, entry: entry}
		e.runRegion(fr, body, h, cur, h)
		for b := range body {
			for i, s := range b.Succs {
				if body[s] {
					continue
				}
				k := [2]int{b.Index, i}
				if st, ok := fr.edges[k]; ok {
					exits[k] = append(exits[k], st)
					snap := map[ssa.Value]Value{}
					for v, x := range fr.vals {
						if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
							snap[v] = x
						}
					}
					exitVals[k] = append(exitVals[k], snap)
				}
			}
		}
		var backs []*State
		var bi []int
		for i, p := range h.Preds {
			if body[p] {
				if s, ok := fr.edges[[2]int{p.Index, e.succIndex(p, h, i)}]; ok {
					backs = append(backs, s)
					bi = append(bi, i)
				}
			}
		}
		if len(backs) == 0 {
			done = true
			break
		}
		st, conds := e.mergeStates(backs)
		np := map[*ssa.Phi]Value{}
		for ph := range phis {
			var vs []Value
			for _, i := range bi {
				vs = append(vs, e.val(fr, ph.Edges[i]))
			}
			np[ph] = e.mergeVals(vs, conds, ph.Type())
		}
		cur, phis = st, np
	}
	e.curLoop = outer
	if !done {
		e.st = cur
		e.oblige("unroll-bound", "loop unrolled completely", nil, e.c.False(), h.Instrs[0].Pos())
	}
	for b := range body {
		for i := range b.Succs {
			delete(fr.edges, [2]int{b.Index, i})
		}
	}
	var keys [][2]int
	for k := range exits {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
	})
	// merge values that are live after the loop
	type ve struct {
		st *State
		m  map[ssa.Value]Value
	}
	var allv []ve
	for _, k := range keys {
		st, _ := e.mergeStates(exits[k])
		e.setEdge(fr, fr.fn.Blocks[k[0]], k[1], st)
		for i, s := range exits[k] {
			allv = append(allv, ve{s, exitVals[k][i]})
		}
	}
	vals := map[ssa.Value]bool{}
	for _, x := range allv {
		for v := range x.m {
			vals[v] = true
		}
	}
	if len(allv) > 0 {
		var sts []*State
		for _, x := range allv {
			sts = append(sts, x.st)
		}
		_, conds := e.mergeStates(sts)
		for v := range vals {
			if !usedOutside(v, body) {
				continue
			}
			var vs []Value
			var cs []*Term
			for i, x := range allv {
				if y, ok := x.m[v]; ok {
					vs = append(vs, y)
					cs = append(cs, conds[i])
				}
			}
			if len(vs) > 0 {
				fr.vals[v] = e.mergeVals(vs, cs, v.Type())
			}
		}
	}
	return true
}

func usedOutside(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		if !body[r.Block()] {
			return true
		}
	}
	return false
}

// constTrip: a counting loop over a constant bound is executed concretely.
func (e *Exec) constTrip(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, init map[*ssa.Phi]Value) int {
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	bo, ok := last.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return 0
	}
	var n *Term
	if in, ok := bo.Y.(ssa.Instruction); ok && body[in.Block()] {
		return 0
	}
	n, _ = e.val(fr, bo.Y).(*Term)
	if n == nil || n.num == nil || n.num.Cmp(big.NewInt(40)) > 0 {
		return 0
	}
	for _, v := range init {
		if t, ok := v.(*Term); ok && t.num != nil {
			if t.num.Cmp(big.NewInt(-1)) >= 0 {
				return int(n.num.Int64()) + 2
			}
		}
	}
	return 0
}

func (e *Exec) runBlock(fr *frame, b *ssa.BasicBlock, skipPhi bool) {
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > 200000 {
			panic(unsupported("execution budget exceeded"))
		}
		if in.Pos().IsValid() {
			e.curPos = in.Pos()
		}
		switch x := in.(type) {
		case *ssa.Phi:
			if !skipPhi {
				panic("phi in entry block")
			}
		case *ssa.If:
			cond := e.val(fr, x.Cond).(*Term)
			t := e.st.clone()
			t.pc = e.c.And(t.pc, cond)
			f := e.st.clone()
			f.pc = e.c.And(f.pc, e.c.Not(cond))
			e.setEdge(fr, b, 0, t)
			e.setEdge(fr, b, 1, f)
			return
		case *ssa.Jump:
			e.setEdge(fr, b, 0, e.st)
			return
		case *ssa.Return:
			var vs []Value
			for _, r := range x.Results {
				vs = append(vs, e.val(fr, r))
			}
			if !e.st.pc.isFalse() {
				fr.rets = append(fr.rets, retRec{e.st, vs})
			}
			return
		case *ssa.Panic:
			if e.nopanic {
				e.oblige("no-panic explicit", "panic is unreachable", e.con.PanicTags, e.c.False(), x.Pos())
			}
			return
		default:
			e.instr(fr, in)
			if e.st.pc.isFalse() {
				// unreachable from here on
				for i := range b.Succs {
					delete(fr.edges, [2]int{b.Index, i})
				}
				return
			}
		}
	}
}

func bigLit(c *Ctx, s string) *Term {
	b, _ := new(big.Int).SetString(s, 10)
	return c.Big(b)
}

func (e *Exec) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return e.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if types.IsInterface(t) {
			return e.zero(t)
		}
		panic(unsupported("const of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.c.Bool(constant.BoolVal(x.Value))
	case b.Info()&types.IsString != 0:
		return e.c.StrLit(constant.StringVal(x.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(x.Value)
		return bigLit(e.c, v.ExactString())
	case b.Info()&types.IsFloat != 0:
		return e.realConst(x.Value)
	}
	panic(unsupported("const " + x.String()))
}

func (e *Exec) realConst(v constant.Value) *Term {
	v = constant.ToFloat(v)
	num, den := constant.Num(v), constant.Denom(v)
	ns, ds := num.ExactString(), den.ExactString()
	neg := strings.HasPrefix(ns, "-")
	ns = strings.TrimPrefix(ns, "-")
	s := ns + ".0"
	if ds != "1" {
		s = "(/ " + ns + ".0 " + ds + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return e.c.RealLit(s)
}

func (e *Exec) val(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return x
	case *ssa.Global:
		return e.globalAddr(x)
	}
	if r, ok := fr.vals[v]; ok {
		return r
	}
	panic(unsupported(fmt.Sprintf("value %s = %s not computed in %s", v.Name(), v.String(), fr.fn)))
}

func (e *Exec) globalAddr(g *ssa.Global) Value {
	el := g.Type().Underlying().(*types.Pointer).Elem()
	return &AddrV{kind: "global", key: "V:" + g.Pkg.Pkg.Path() + "." + g.Name(), t: el}
}

// zeroedGhosts names the ghost maps declared zero at allocation that the contract under proof mentions.
func (e *Exec) zeroedGhosts() []string {
	if e.zeroed == nil {
		e.zeroed = []string{}
		if e.con != nil {
			for n, g := range e.v.ghosts {
				if g.Zeroed && e.con.mentions(n) {
					e.zeroed = append(e.zeroed, n)
				}
			}
			sort.Strings(e.zeroed)
		}
	}
	return e.zeroed
}
