package main

import (
	"bytes"
	"context"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FnResult is the outcome for one function under contract.
type FnResult struct {
	Con     *Contract
	Fn      *ssa.Function
	Obls    []*Obl
	Used    map[string]bool
	Assumed map[string]bool
	Inlined map[string]bool
	Err     string
	Missing bool
	Exec    *Exec
}

func (v *Verifier) verifyFn(con *Contract) (res *FnResult) {
	res = &FnResult{Con: con}
	fn := v.funcsBy[con.Name]
	if fn == nil {
		res.Missing = true
		return
	}
	res.Fn = fn
	e := &Exec{v: v, c: newCtx(), funcs: map[*Term]*FuncV{}, addrs: map[*Term]*AddrV{}, addrEsc: map[string]bool{}, baseOf: map[*Term]*Term{}, factDone: map[*Term]bool{}, keySort: map[string]Sort{}, root: fn, con: con,
		assumed: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}, recApps: map[string]*recDef{}, unfolded: map[*Term]bool{}, doneLoops: map[int]bool{}, loopOrdOf: map[string]int{}, oblNames: map[string]int{}}
	e.c.smtStr = con.SmtStr
	e.allowEsc = con.AllowEsc
	res.Exec = e
	defer func() {
		res.Obls = e.obls
		res.Used, res.Assumed, res.Inlined = e.used, e.assumed, e.inlined
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsup:
				pos := ""
				if e.curPos.IsValid() {
					p := v.fset.Position(e.curPos)
					pos = fmt.Sprintf(" at %s:%d", strings.TrimPrefix(p.Filename, v.repo+"/"), p.Line)
				}
				res.Err = "outside the verifier's subset: " + x.msg + pos
			case specErr:
				res.Err = "specification does not fit the code: " + x.msg
			default:
				res.Err = fmt.Sprintf("internal: %v\n%s", r, debug.Stack())
			}
		}
	}()
	st := &State{heap: map[string]*Term{}, pc: e.c.True()}
	st.next = e.c.Const("alloc!0", sInt)
	e.st = st
	e.assumeRaw(e.c.Lt(e.c.Int(0), st.next))
	var args []Value
	var ats []types.Type
	for i, p := range fn.Params {
		nm := p.Name()
		if i < len(con.Params) {
			nm = con.Params[i]
		}
		var ts []*Term
		for _, l := range e.leaves(p.Type()) {
			ts = append(ts, e.c.Const("p:"+nm+l.suf, l.sort))
		}
		val := e.unflatten(p.Type(), ts)
		e.typeFacts(val, p.Type())
		args = append(args, val)
		ats = append(ats, p.Type())
	}
	old := st.clone()
	e.old = old
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	}
	if len(con.Params) != len(fn.Params) {
		panic(specErr{fmt.Sprintf("%s has %d parameters (with receiver), contract names %d", con.Name, len(fn.Params), len(con.Params))})
	}
	env := e.conEnv(con, args, ats, pkg, old, st)
	e.env0 = env
	for _, a := range v.axioms {
		if t := e.axiomTerm(a, env, st); t != nil {
			e.axioms = append(e.axioms, t)
		}
	}
	if con.HeapWF {
		e.heapWF()
	}
	for _, g := range v.constGlobals {
		in := false // a function of that package is run in place
		for x := range con.InlineAll {
			in = in || strings.HasPrefix(x, g.Pkg+".")
		}
		if pkg == nil || pkgShort(pkg) != g.Pkg && !in {
			continue
		}
		if fn.Synthetic == "package initializer" {
			if gl, ok := fn.Pkg.Members[g.Name].(*ssa.Global); ok {
				if v.reass[gl] {
					panic(specErr{"package variable " + g.Name + " is assigned or has its address taken outside the package's initialisation"})
				}
			}
			continue
		}
		e.inlined["contract:"+g.Pkg+".init"] = true
		e.assume(e.specBool(g.Fact, env, e.st))
	}
	for _, cl := range con.Requires {
		e.assume(e.specBool(cl, env, e.st))
	}
	for _, cl := range con.Defines {
		e.used["definition unfolded in "+con.Name+": "+cl.Text] = true
		e.assume(e.specBool(cl, env, e.st))
	}
	if fn.Synthetic == "package initializer" {
		if g, ok := fn.Pkg.Members["init$guard"].(*ssa.Global); ok {
			e.assumeRaw(e.c.Not(e.loadGlobal(g, types.Typ[types.Bool]).(*Term)))
		}
	}
	// reachability of the precondition
	e.obls = append(e.obls, &Obl{Name: con.Name + ": precondition satisfiable", Kind: "cover", Func: con.Name, nf: len(e.facts), guard: e.c.True(), goal: e.c.False(), want: "notunsat"})
	e.nopanic = con.NoPanic
	e.nopanicRoot = fn
	e.st = st.clone()
	rs := e.runFunction(fn, args, nil)
	e.nopanic = false
	e.curLoop = nil
	env2 := env
	env2.cur = e.st
	e.bindResults(con, env2, rs, fn.Signature)
	post := func(suffix string) {
		for _, cl := range con.Asserts {
			e.curLoop = e.lastLoop
			t := e.specBool(cl, env2, e.st)
			e.curLoop = nil
			e.obligeNamed("assert "+cl.Label+suffix, "assertion at the return", cl.Text, cl.Tags, t, token.NoPos)
			e.assume(t)
		}
		for _, cl := range con.Ensures {
			e.obligeNamed("ensures "+cl.Label+suffix, "postcondition", cl.Text, cl.Tags, e.specBool(cl, env2, e.st), token.NoPos)
		}
	}
	if con.Split && len(e.rootRets) > 1 {
		// one obligation for each return of the function
		merged := e.st
		for i, r := range e.rootRets {
			e.st = r.st
			env2.cur = r.st
			e.bindResults(con, env2, r.vals, fn.Signature)
			post(fmt.Sprintf(" (return %d)", i+1))
		}
		e.st = merged
		env2.cur = merged
		e.bindResults(con, env2, rs, fn.Signature)
	} else {
		post("")
	}
	if fn.Synthetic == "package initializer" {
		for _, g := range v.constGlobals {
			if pkgShort(pkg) == g.Pkg {
				e.obligeNamed("ensures "+g.Fact.Label, "postcondition", g.Fact.Text, nil, e.specBool(g.Fact, env2, e.st), token.NoPos)
			}
		}
	}
	if !con.NoFrame {
		e.frameObligations(con, env2)
	}
	e.obls = append(e.obls, &Obl{Name: con.Name + ": normal return reachable", Kind: "cover", Func: con.Name, nf: len(e.facts), guard: e.st.pc, goal: e.c.False(), want: "notunsat"})
	return
}

// allowedLocs are the places the modifies clauses let change.
func (e *Exec) allowedLocs() map[string][]modLoc {
	if e.allowed == nil {
		e.allowed = map[string][]modLoc{}
		for _, m := range e.con.Modifies {
			for _, l := range e.modLocs(e.env0, m, e.old) {
				e.allowed[l.key] = append(e.allowed[l.key], l)
			}
		}
	}
	return e.allowed
}

// frameKeys are the heap components a loop changes at unknown places.
func (e *Exec) frameKeys(mod map[string]*modInfo) []string {
	if e.con == nil || e.con.NoFrame {
		return nil
	}
	var ks []string
	for k, m := range mod {
		if m.all && !strings.HasPrefix(k, "I:") && !strings.HasPrefix(k, "V:") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// frameFormula: component k in st differs from entry only where the modifies clause allows.
// nil when everything may change.
func (e *Exec) frameFormula(k string, st *State) *Term {
	c := e.c
	h, ok := st.heap[k]
	if !ok {
		return c.True()
	}
	h0 := e.heapGet(e.old, k, h.sort)
	if h == h0 {
		return c.True()
	}
	for _, l := range e.allowedLocs()[k] {
		if l.ref == nil {
			return nil
		}
	}
	ks, _ := splitArr(h.sort)
	r := c.BoundVar("r", ks)
	var cond []*Term
	if ks == sInt {
		cond = append(cond, c.Lt(c.Int(0), r), c.Lt(r, e.old.next))
	}
	for _, l := range e.allowedLocs()[k] {
		cond = append(cond, c.Not(c.Eq(r, l.ref)))
	}
	return c.Quant("forall", []*Term{r}, c.Implies(c.And(cond...), c.Eq(c.Select(h, r), c.Select(h0, r))))
}

// frameObligations: nothing that existed at entry changes outside the modifies clause.
func (e *Exec) frameObligations(con *Contract, env *specEnv) {
	c := e.c
	var keys []string
	for k := range e.st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if strings.HasPrefix(k, "I:") {
			continue
		}
		h := e.st.heap[k]
		h0 := e.heapGet(e.old, k, h.sort)
		if h == h0 {
			continue
		}
		if strings.HasPrefix(k, "V:") {
			whole := false
			for _, l := range e.allowedLocs()[k] {
				whole = whole || l.ref == nil
			}
			if !whole {
				e.obligeNamed("frame: global "+strings.TrimPrefix(k, "V:")+" unchanged", "frame", "unchanged", con.FrameTags, c.Eq(h, h0), token.NoPos)
			}
			continue
		}
		if g := e.frameFormula(k, e.st); g != nil {
			e.obligeNamed("frame: "+k+" unchanged elsewhere", "frame", "only the modifies clause changes", con.FrameTags, g, token.NoPos)
		}
	}
}

// ---- solving ----

type job struct {
	o   *Obl
	e   *Exec
	tmo int
}

func runSolver(bin string, args []string, script string, secs int) (string, float64) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+3)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	return out.String(), time.Since(t0).Seconds()
}

type solverCfg struct {
	name string
	bin  string
	args func(sec int) []string
}

var solvers = []solverCfg{
	{"z3-new", "z3-new", func(s int) []string { return []string{"-in", fmt.Sprintf("-T:%d", s)} }},
	{"cvc5", "cvc5", func(s int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--strings-exp", "--produce-models", "-q"}
	}},
	{"z3", "z3", func(s int) []string { return []string{"-in", fmt.Sprintf("-T:%d", s)} }},
	{"z3-new/plain", "z3-new", func(s int) []string { return []string{"-in", fmt.Sprintf("-T:%d", s), "smt.auto_config=false"} }},
	{"z3-new/goal", "z3-new", func(s int) []string {
		return []string{"-in", fmt.Sprintf("-T:%d", s), "smt.auto_config=false", "smt.case_split=4"}
	}},
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return "error: " + l
		}
	}
	return "timeout"
}

// failCount and solveDeadline bound the time spent on a tree whose obligations fail.
var failCount int32
var solveDeadline time.Time

func solveOne(j job, cross bool) {
	o := j.o
	c := j.e.c
	var as []*Term
	goals := append(append([]*Term{o.guard}, o.extra...), o.neg)
	facts := append(j.e.relevantAxioms(append(append([]*Term{}, j.e.facts[:o.nf]...), goals...)), j.e.facts[:o.nf]...)
	as = append(append(as, facts...), goals...)
	o.script = c.script(as, false, nil)
	if o.want == "notunsat" {
		sec := 1
		if cross {
			sec = 6
		}
		out, t := runSolver("z3-new", []string{"-in", fmt.Sprintf("-T:%d", sec)}, o.script, sec)
		o.Seconds = t
		o.Solver = "z3-new"
		r := firstLine(out)
		o.Output = r
		if r == "unsat" {
			o.Status = "failed"
		} else if strings.HasPrefix(r, "error") {
			o.Status = "failed"
			o.Output = out
		} else {
			o.Status = "proved"
		}
		return
	}
	if o.goal.isTrue() || o.guard.isFalse() {
		o.Status, o.Solver = "proved", "simplifier"
		return
	}
	total := 0.0
	var outs []string
	if !solveDeadline.IsZero() && time.Now().After(solveDeadline.Add(120*time.Second)) {
		o.Status, o.Output = "failed", "not attempted: the time for this check ran out"
		return
	}
	short := 3
	if short > j.tmo {
		short = j.tmo
	}
	type att struct {
		s   solverCfg
		sec int
	}
	if len(as) > 20 {
		for _, s := range solvers[3:] {
			out, t := runSolver(s.bin, s.args(1), o.script, 1)
			total += t
			if !cross && firstLine(out) == "unsat" {
				o.Status, o.Solver, o.Seconds = "proved", s.name, total
				return
			}
		}
		prev := len(as)
		r0 := map[int]bool{} // slices shown satisfiable: more time would not help
		for ti, tol := range []float64{1, 2, 3, 3, 5, 1, 3} {
			if ti == 5 {
				out, t := runSolver(solvers[0].bin, solvers[0].args(3), o.script, 3)
				total += t
				if r := firstLine(out); r == "unsat" && !cross {
					o.Status, o.Solver, o.Seconds = "proved", solvers[0].name, total
					return
				}
			}
			sl := c.slice(facts, append([]*Term{}, goals...), tol)
			if len(sl) >= len(as)-5 || len(sl) == prev && ti < 5 && ti != 3 {
				continue
			}
			prev = len(sl)
			sec := []int{1, 1, 1, 3, 3, 6, 6}[ti]
			sv := solvers[0]
			if ti == 3 {
				sv, sl = solvers[1], as
			}
			if r0[len(sl)] {
				continue
			}
			scr := c.script(sl, false, nil)
			out, t := runSolver(sv.bin, sv.args(sec), scr, sec)
			total += t
			r := firstLine(out)
			if os.Getenv("GOCV_DEBUG") != "" {
				if os.Getenv("GOCV_SLICE") != "" && strings.Contains(o.Name, os.Getenv("GOCV_SLICE")) {
					os.WriteFile(fmt.Sprintf("/tmp/sl_%d.smt2", len(sl)), []byte(scr), 0644)
				}
				fmt.Fprintf(os.Stderr, "slice %d/%d %s %.1fs %s\n", len(sl), len(as), r, t, o.Name)
			}
			if r == "unsat" && !cross {
				o.Status, o.Solver, o.Seconds = "proved", sv.name, total
				return
			}
			if r == "unsat" && cross {
				// the slice is the script a second solver confirms
				o.script = scr
				break
			}
			if r == "sat" {
				r0[len(sl)] = true
			}
			outs = append(outs, fmt.Sprintf("slice of %d facts(%ds): %s", len(sl), sec, r))
		}
	}
	if atomic.LoadInt32(&failCount) >= 8 || !solveDeadline.IsZero() && time.Now().After(solveDeadline) {
		// enough obligations have failed already: the rest get the short attempts only
		j.tmo = short
	}
	atts := []att{{solvers[0], short}, {solvers[3], short}, {solvers[4], short}, {solvers[1], short}, {solvers[2], short}, {solvers[0], j.tmo}, {solvers[1], j.tmo}, {solvers[2], j.tmo}, {solvers[3], j.tmo}, {solvers[4], j.tmo}}
	sat := false
	for _, a := range atts {
		if sat && a.sec > short {
			break
		}
		out, t := runSolver(a.s.bin, a.s.args(a.sec), o.script, a.sec)
		total += t
		r := firstLine(out)
		outs = append(outs, fmt.Sprintf("%s(%ds): %s", a.s.name, a.sec, r))
		if r == "unsat" {
			o.Status, o.Solver, o.Seconds = "proved", a.s.name, total
			if cross {
				// confirm with a second solver when it can
				for _, s2 := range solvers {
					if s2.name == a.s.name {
						continue
					}
					o2, t2 := runSolver(s2.bin, s2.args(10), o.script, 10)
					o.Seconds += t2
					r2 := firstLine(o2)
					if r2 == "unsat" {
						o.Solver += "+" + s2.name
						break
					}
					if r2 == "sat" {
						o.Status = "failed"
						o.Output = "solvers disagree: " + a.s.name + " unsat, " + s2.name + " sat"
						return
					}
				}
			}
			return
		}
		if r == "sat" {
			sat = true
		}
	}
	o.Seconds = total
	o.Status = "failed"
	atomic.AddInt32(&failCount, 1)
	o.Output = strings.Join(outs, "; ")
	if sat && len(o.evals) > 0 {
		var ev []*Term
		for _, n := range o.evals {
			ev = append(ev, n.t)
		}
		out, _ := runSolver("z3-new", []string{"-in", "-T:10"}, c.script(as, true, ev), 10)
		o.Output += "\n" + out
	}
}

func solveAll(jobs []job, n int, cross bool) {
	ch := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				solveOne(j, cross)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func (v *Verifier) solve(rs []*FnResult, keep func(*Obl) bool) {
	var jobs []job
	for _, r := range rs {
		t := v.opts.timeout
		if r.Con.Timeout > t {
			t = r.Con.Timeout
		}
		for _, o := range r.Obls {
			if keep == nil || keep(o) {
				o.neg = r.Exec.c.Not(o.goal)
				jobs = append(jobs, job{o, r.Exec, t})
			}
		}
	}
	solveAll(jobs, v.opts.jobs, v.opts.cross)
	if v.opts.dumpDir != "" {
		os.MkdirAll(v.opts.dumpDir, 0755)
		k := 0
		for _, j := range jobs {
			if j.o.Status != "proved" {
				k++
				os.WriteFile(filepath.Join(v.opts.dumpDir, fmt.Sprintf("%03d.smt2", k)), []byte("; "+j.o.Name+"\n"+j.o.script), 0644)
			}
		}
	}
}

func runVerify(repo, verif, sub, prop string, o *options) int {
	v, err := newVerifier(repo, lemmaOverlay(verif, repo))
	if err != nil {
		fmt.Println("load:", err)
		return 2
	}
	v.opts = o
	if err := v.loadContracts(filepath.Join(verif, "contracts")); err != nil {
		fmt.Println("contracts:", err)
		return 2
	}
	var rs []*FnResult
	for _, k := range v.conOrder {
		con := v.contracts[k]
		if con.Kind != "func" || !strings.Contains(con.Name, sub) {
			continue
		}
		t0 := time.Now()
		r := v.verifyFn(con)
		if o.verbose {
			fmt.Printf("%-50s obligations=%d facts=%d exec=%.2fs %s\n", con.Name, len(r.Obls), len(r.Exec0().facts), time.Since(t0).Seconds(), r.Err)
		}
		if r.Missing {
			fmt.Println("MISSING", con.Name)
			continue
		}
		if r.Err != "" {
			fmt.Println("ERROR", con.Name, r.Err)
		}
		rs = append(rs, r)
	}
	t0 := time.Now()
	v.solve(rs, nil)
	bad, n := 0, 0
	var secs float64
	for _, r := range rs {
		for _, ob := range r.Obls {
			n++
			secs += ob.Seconds
			if ob.Status != "proved" {
				bad++
				fmt.Printf("FAILED %s [%s] %s\n   %s\n   %s\n", ob.Name, strings.Join(ob.Tags, ","), ob.Pos, ob.Text, ob.Output)
			} else if o.verbose && ob.Seconds > 1 {
				fmt.Printf("slow %.1fs %s\n", ob.Seconds, ob.Name)
			}
		}
		if r.Err != "" {
			bad++
		}
	}
	fmt.Printf("%d functions, %d obligations, %d failed, solver %.1fs, wall %.1fs\n", len(rs), n, bad, secs, time.Since(t0).Seconds())
	if bad > 0 {
		return 1
	}
	return 0
}

func (r *FnResult) Exec0() *Exec {
	if r.Exec == nil {
		return &Exec{}
	}
	return r.Exec
}

// lemmaOverlay adds the lemma functions of /verif/lemmas/<pkg>/*.go to the packages they reason about.
func lemmaOverlay(verif, repo string) map[string][]byte {
	out := map[string][]byte{}
	root := filepath.Join(verif, "lemmas")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		b, err := os.ReadFile(p)
		if err == nil {
			out[filepath.Join(repo, filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))] = b
		}
		return nil
	})
	return out
}

// axiomTerm is the axiom over this function's sort of strings. An axiom over abstract strings has no place in a
// function verified with the SMT theory of strings: leaving an assumption out is safe.
func (e *Exec) axiomTerm(a *Clause, env *specEnv, st *State) (t *Term) {
	if e.c.strSort() != Sort("Str") {
		defer func() {
			if recover() != nil {
				t = nil
			}
		}()
	}
	return e.specBool(a, env, st)
}

// heapWF: maps and slices held in interface values of the entry heap were allocated before entry.
func (e *Exec) heapWF() {
	c := e.c
	any := types.NewInterfaceType(nil, nil)
	msi := types.NewMap(types.Typ[types.String], any)
	held := func(x *Term) *Term {
		var cs []*Term
		for _, t := range []types.Type{msi, types.NewSlice(any)} {
			r := e.flatten(e.unbox(x, t), t)[0]
			cs = append(cs, c.Implies(e.isType(x, t), c.And(c.Le(c.Int(0), r), c.Lt(r, e.st.next))))
		}
		return c.And(cs...)
	}
	r, i := c.BoundVar("r", sInt), c.BoundVar("i", sInt)
	e.assumeRaw(c.Quant("forall", []*Term{r, i}, held(c.Select(c.Select(e.elemHeap(e.st, any, e.leaves(any)[0]), r), i))))
	r, k := c.BoundVar("r", sInt), c.BoundVar("k", e.mapKeySort(msi))
	e.assumeRaw(c.Quant("forall", []*Term{r, k}, held(c.Select(c.Select(e.mapVals(e.st, msi)[0], r), k))))
}
