package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Clause is one specification expression.
type Clause struct {
	Text  string
	Label string
	Tags  []string
	Expr  ast.Expr
	File  string
	Line  int
	Opt   bool // optional: skipped when a name does not resolve
}

// LoopSpec holds a loop's invariants.
type LoopSpec struct {
	Invs   []*Clause
	Unroll int
}

type recSpec struct {
	Name   string
	Params []string
	Ptypes []string
	Rtype  string
	Body   *Clause
}

// Contract is the specification of one function.
type Contract struct {
	Kind      string // func, iface, extern, functype
	Name      string
	Params    []string
	Results   []string
	Requires  []*Clause
	Defines   []*Clause // unfoldings of definitions at this call's arguments
	Ensures   []*Clause
	Split     bool      // check the postconditions at each return on its own
	Asserts   []*Clause // proved at the return, then used for the postconditions; not seen by callers
	Modifies  []*Clause
	FrameTags []string
	HasMod    bool
	Loops     map[int]*LoopSpec
	Recs      []*recSpec
	Lets      []letSpec
	Pure      bool
	NoPanic   bool
	PanicTags []string
	SmtStr    bool
	InlineAll map[string]bool
	BodyOnly  bool // verified, but inlined at call sites
	Optional  bool
	Helper    bool
	Assumed   bool
	NoFrame   bool
	File      string
	Line      int
	Lemma     bool
	Timeout   int
	AllowEsc  bool
	ExactInts bool
	HeapWF    bool
	Chars     bool // relate the characters of strings made of bytes to those bytes
	Carries   bool
}

type letSpec struct {
	Name string
	C    *Clause
}

type macro struct {
	Name   string
	Params []string
	Body   ast.Expr
	Text   string
}

type ghostDecl struct {
	Name   string
	Key    Sort
	Val    Sort
	Zeroed bool // zero for an object that was just allocated
}

// mentions: a clause of the contract names x.
func (c *Contract) mentions(x string) bool {
	for _, cs := range [][]*Clause{c.Requires, c.Ensures} {
		for _, cl := range cs {
			if strings.Contains(cl.Text, x) {
				return true
			}
		}
	}
	return false
}

// SV is a specification value.
type SV struct {
	v Value
	t types.Type
}

type specEnv struct {
	names map[string]SV
	recs  map[string]*recDef
	pkg   *types.Package
	cur   *State
	old   *State
	up    *specEnv
	evals []namedTerm
	lets  map[string]*Clause
	past  bool           // inside old() or entry()
	param map[string]int // the root's parameters
}

type recDef struct {
	inst  string
	spec  *recSpec
	env   *specEnv
	rt    types.Type
	rsort Sort
	pts   []types.Type
}

func (n *specEnv) child() *specEnv {
	return &specEnv{names: map[string]SV{}, recs: n.recs, pkg: n.pkg, cur: n.cur, old: n.old, up: n, lets: n.lets, past: n.past}
}

func (n *specEnv) lookup(s string) (SV, bool) {
	for x := n; x != nil; x = x.up {
		if v, ok := x.names[s]; ok {
			return v, true
		}
	}
	return SV{}, false
}

var reTag = regexp.MustCompile(`^([a-z]+)(\[([A-Z0-9, ]+)\])?(\?)?\s*(.*)$`)
var reForeach = regexp.MustCompile(`^foreach\s+(.*?)\s+in\s+(fields|jsonfields)\(([\w./*]+)\)(\s+except\s+([\w, ]+?))?(\s+only\s+([\w, ]+?))?\s*:\s*(.*)$`)

func (v *Verifier) loadContracts(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(files)
	for _, f := range files {
		if err := v.parseContracts(f); err != nil {
			return err
		}
	}
	return nil
}

func (v *Verifier) parseContracts(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	lines := strings.Split(string(data), "\n")
	var cur *Contract
	var loop *LoopSpec
	for ln := 0; ln < len(lines); ln++ {
		line := strings.TrimSpace(lines[ln])
		start := ln + 1
		for strings.HasSuffix(line, "\\") && ln+1 < len(lines) {
			ln++
			line = strings.TrimSuffix(line, "\\") + " " + strings.TrimSpace(lines[ln])
		}
		if i := strings.Index(line, " #"); i >= 0 {
			line = strings.TrimSpace(line[:i])
		}
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		fail := func(msg string) error {
			return fmt.Errorf("%s:%d: %s: %s", filepath.Base(file), start, msg, line)
		}
		word := strings.FieldsFunc(line, func(r rune) bool { return r == ' ' || r == '[' || r == '?' })[0]
		switch word {
		case "func", "iface", "extern", "functype", "lemma":
			c, err := parseHead(line)
			if err != nil {
				return fail(err.Error())
			}
			c.File, c.Line = filepath.Base(file), start
			cur = c
			loop = nil
			key := c.Kind + " " + c.Name
			if _, dup := v.contracts[key]; dup {
				return fail("duplicate contract")
			}
			v.contracts[key] = c
			v.conOrder = append(v.conOrder, key)
			continue
		case "macro":
			// macro name(a, b) = expr
			rest := strings.TrimSpace(line[5:])
			i := strings.Index(rest, "=")
			h := strings.TrimSpace(rest[:i])
			for strings.Count(h, "(") != strings.Count(h, ")") {
				return fail("macro head")
			}
			p := strings.Index(h, "(")
			m := &macro{Name: h[:p], Text: rest[i+1:]}
			for _, a := range strings.Split(h[p+1:len(h)-1], ",") {
				if a = strings.TrimSpace(a); a != "" {
					m.Params = append(m.Params, a)
				}
			}
			x, err := parser.ParseExpr(rest[i+1:])
			if err != nil {
				return fail(err.Error())
			}
			m.Body = x
			if old := v.macros[m.Name]; old != nil {
				return fail("macro " + m.Name + " defined twice")
			}
			v.macros[m.Name] = m
			continue
		case "constglobal":
			// constglobal pkg.name : EXPR
			h, x, ok := strings.Cut(line[len("constglobal"):], ":")
			i := strings.LastIndex(h, ".")
			if !ok || i < 0 {
				return fail("constglobal pkg.name : EXPR")
			}
			x = strings.TrimSpace(x)
			ex, err := parser.ParseExpr(x)
			if err != nil {
				return fail(err.Error())
			}
			v.constGlobals = append(v.constGlobals, &constGlobal{strings.TrimSpace(h[:i]), strings.TrimSpace(h[i+1:]), &Clause{Text: x, Label: x, Expr: ex, File: filepath.Base(file), Line: start}})
			continue
		case "ghost":
			// ghost name KeySort ValSort
			f := strings.Fields(line)
			if len(f) != 4 && !(len(f) == 5 && f[4] == "zeroed") {
				return fail("ghost name keysort valsort [zeroed]")
			}
			if v.ghosts[f[1]] != nil {
				return fail("ghost " + f[1] + " declared twice")
			}
			v.ghosts[f[1]] = &ghostDecl{f[1], Sort(f[2]), Sort(f[3]), len(f) == 5}
			continue
		case "uf":
			// uf name(Sort, ...) Sort
			rest := strings.TrimSpace(line[2:])
			p := strings.Index(rest, "(")
			q := strings.LastIndex(rest, ")")
			u := &ufDecl{name: rest[:p], res: Sort(strings.TrimSpace(rest[q+1:]))}
			for _, a := range strings.Split(rest[p+1:q], ",") {
				if a = strings.TrimSpace(a); a != "" {
					u.args = append(u.args, Sort(a))
				}
			}
			v.specUFs[u.name] = u
			continue
		case "axiom":
			m := reTag.FindStringSubmatch(line)
			x, err := parser.ParseExpr(m[5])
			if err != nil {
				return fail(err.Error())
			}
			v.axioms = append(v.axioms, &Clause{Text: m[5], Label: m[5], Expr: x, File: filepath.Base(file), Line: start})
			continue
		}
		if cur == nil {
			return fail("clause outside a contract")
		}
		m := reTag.FindStringSubmatch(line)
		if m == nil {
			return fail("bad clause")
		}
		var tags []string
		if m[3] != "" {
			for _, t := range strings.Split(m[3], ",") {
				tags = append(tags, strings.TrimSpace(t))
			}
		}
		rest := m[5]
		mk := func(text, label string) (*Clause, error) {
			x, err := parser.ParseExpr(text)
			if err != nil {
				return nil, fail(err.Error())
			}
			return &Clause{Text: text, Label: label, Tags: tags, Expr: x, File: filepath.Base(file), Line: start, Opt: m[4] == "?"}, nil
		}
		expand := func(text string, add func(*Clause)) error {
			texts, err := v.expandForeach(text)
			if err != nil {
				return fail(err.Error())
			}
			for _, t := range texts {
				lab := t
				if len(lab) > 110 {
					lab = lab[:107] + "..."
				}
				c, err := mk(t, lab)
				if err != nil {
					return err
				}
				add(c)
			}
			return nil
		}
		switch m[1] {
		case "requires":
			err = expand(rest, func(c *Clause) { cur.Requires = append(cur.Requires, c) })
		case "define":
			err = expand(rest, func(c *Clause) { cur.Defines = append(cur.Defines, c) })
		case "assert":
			err = expand(rest, func(c *Clause) { cur.Asserts = append(cur.Asserts, c) })
		case "ensures":
			err = expand(rest, func(c *Clause) { cur.Ensures = append(cur.Ensures, c) })
		case "modifies":
			cur.HasMod = true
			if rest == "nothing" {
				cur.FrameTags = tags
				break
			}
			for _, part := range splitTop(rest) {
				p := strings.ReplaceAll(part, ".*", ".ALLFIELDS")
				err = expand(p, func(c *Clause) { cur.Modifies = append(cur.Modifies, c) })
				if err != nil {
					break
				}
			}
			if len(tags) > 0 {
				cur.FrameTags = tags
			}
		case "loop":
			var n int
			fmt.Sscanf(rest, "%d", &n)
			loop = &LoopSpec{}
			cur.Loops[n] = loop
		case "invariant":
			if loop == nil {
				return fail("invariant outside loop")
			}
			err = expand(rest, func(c *Clause) { loop.Invs = append(loop.Invs, c) })
		case "unroll":
			fmt.Sscanf(rest, "%d", &loop.Unroll)
		case "rec":
			// rec name(i int, k string) T = expr   | rec foreach F in fields(T) : name_$F(...) $T = expr
			texts, e2 := v.expandForeach(rest)
			if e2 != nil {
				return fail(e2.Error())
			}
			for _, t := range texts {
				r, e3 := parseRec(t, mk)
				if e3 != nil {
					return fail(e3.Error())
				}
				cur.Recs = append(cur.Recs, r)
			}
		case "let":
			texts, e2 := v.expandForeach(rest)
			if e2 != nil {
				return fail(e2.Error())
			}
			for _, t := range texts {
				i := strings.Index(t, "=")
				c, e3 := mk(strings.TrimSpace(t[i+1:]), t)
				if e3 != nil {
					return e3
				}
				cur.Lets = append(cur.Lets, letSpec{strings.TrimSpace(t[:i]), c})
			}
		case "split":
			cur.Split = true
		case "pure":
			cur.Pure = true
		case "nopanic":
			cur.NoPanic = true
			cur.PanicTags = tags
		case "strings":
			cur.SmtStr = strings.TrimSpace(rest) == "smt"
		case "inline":
			for _, x := range strings.Fields(rest) {
				cur.InlineAll[x] = true
			}
		case "bodyonly":
			cur.BodyOnly = true
		case "optional":
			cur.Optional = true
		case "helper": // relied on by callers under every property, whatever the tags of its clauses
			cur.Helper = true
		case "noframe":
			cur.NoFrame = true
		case "exactints":
			cur.ExactInts = true
		case "allowesc":
			cur.AllowEsc = true
		case "chars":
			cur.Chars = true
		case "heapwf":
			cur.HeapWF = true
		case "timeout":
			fmt.Sscanf(rest, "%d", &cur.Timeout)
		default:
			return fail("unknown clause " + m[1])
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func splitTop(s string) []string {
	if strings.HasPrefix(s, "foreach") {
		return []string{s}
	}
	var out []string
	d, st := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

var reRec = regexp.MustCompile(`^(\w+)\(([^)]*)\)\s+(.*?)\s+=\s+(.*)$`)

func parseRec(t string, mk func(a, b string) (*Clause, error)) (*recSpec, error) {
	m := reRec.FindStringSubmatch(t)
	if m == nil {
		return nil, fmt.Errorf("bad rec: %s", t)
	}
	r := &recSpec{Name: m[1], Rtype: m[3]}
	for _, p := range strings.Split(m[2], ",") {
		f := strings.Fields(p)
		if len(f) != 2 {
			return nil, fmt.Errorf("rec params: %s", t)
		}
		r.Params = append(r.Params, f[0])
		r.Ptypes = append(r.Ptypes, f[1])
	}
	c, err := mk(m[4], t)
	if err != nil {
		return nil, err
	}
	r.Body = c
	return r, nil
}

func parseHead(line string) (*Contract, error) {
	// func pkg.(*T).Name(a, b) (r, err)
	f := strings.SplitN(line, " ", 2)
	c := &Contract{Kind: f[0], Loops: map[int]*LoopSpec{}, InlineAll: map[string]bool{}}
	if c.Kind == "extern" || c.Kind == "iface" || c.Kind == "functype" {
		c.Assumed = true
	}
	if c.Kind == "lemma" {
		c.Lemma = true
		c.Kind = "func"
	}
	rest := strings.TrimSpace(f[1])
	// the parameter list is the first "(" after the name, where the name may hold "(*T)."
	i := 0
	if j := strings.Index(rest, ")."); j >= 0 && strings.Contains(rest[:j], "(*") {
		i = j + 2
	}
	p := strings.Index(rest[i:], "(")
	if p < 0 {
		c.Name = rest
		return c, nil
	}
	p += i
	c.Name = rest[:p]
	q := strings.Index(rest[p:], ")") + p
	for _, a := range strings.Split(rest[p+1:q], ",") {
		if a = strings.TrimSpace(a); a != "" {
			c.Params = append(c.Params, a)
		}
	}
	tail := strings.TrimSpace(rest[q+1:])
	if strings.HasPrefix(tail, "(") {
		q := strings.Index(tail, ")")
		for _, a := range strings.Split(tail[1:q], ",") {
			if a = strings.TrimSpace(a); a != "" {
				c.Results = append(c.Results, a)
			}
		}
	}
	return c, nil
}

// expandForeach instantiates a clause for every field of a struct type of the current source.
func (v *Verifier) expandForeach(text string) ([]string, error) {
	m := reForeach.FindStringSubmatch(text)
	if m == nil {
		return []string{text}, nil
	}
	t := v.lookupType(m[3])
	if t == nil {
		return nil, fmt.Errorf("unknown type %s", m[3])
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("not a struct: %s", m[3])
	}
	list := func(s string) map[string]bool {
		out := map[string]bool{}
		for _, x := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
			out[x] = true
		}
		return out
	}
	exc, only := list(m[5]), list(m[7])
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if exc[f.Name()] || len(only) > 0 && !only[f.Name()] {
			continue
		}
		tag := jsonTag(st.Tag(i))
		if m[2] == "jsonfields" && (!f.Exported() || tag == "-") {
			continue
		}
		if tag == "" {
			tag = f.Name()
		}
		s := m[8]
		s = strings.ReplaceAll(s, "$F", f.Name())
		s = strings.ReplaceAll(s, "$tag", tag)
		s = strings.ReplaceAll(s, "$T", "typeof:"+m[3]+":"+f.Name())
		out = append(out, s)
	}
	return out, nil
}

func jsonTag(tag string) string {
	i := strings.Index(tag, `json:"`)
	if i < 0 {
		return ""
	}
	t := tag[i+6:]
	t = t[:strings.Index(t, `"`)]
	return strings.Split(t, ",")[0]
}

func jsonOmit(tag string) bool {
	i := strings.Index(tag, `json:"`)
	if i < 0 {
		return false
	}
	t := tag[i+6:]
	t = t[:strings.Index(t, `"`)]
	return strings.Contains(t, ",omitempty")
}

// lookupType resolves "Commit" (package dataset) or "pkg.Name".
func (v *Verifier) lookupType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		if t := v.lookupType(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if t := v.lookupType(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(s, "map[string]"):
		if t := v.lookupType(s[11:]); t != nil {
			return types.NewMap(types.Typ[types.String], t)
		}
		return nil
	case s == "interface{}" || s == "any":
		return types.NewInterfaceType(nil, nil)
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	pk, n := "dataset", s
	if i := strings.LastIndex(s, "."); i >= 0 {
		pk, n = s[:i], s[i+1:]
	}
	for _, p := range v.pkgs {
		if pkgShort(p.Types) == pk {
			if o := p.Types.Scope().Lookup(n); o != nil {
				return o.Type()
			}
		}
	}
	if v.extPkgs == nil {
		v.extPkgs = map[string]*types.Package{}
		var walk func(p *types.Package)
		walk = func(p *types.Package) {
			if _, ok := v.extPkgs[p.Path()]; ok {
				return
			}
			v.extPkgs[p.Path()] = p
			for _, q := range p.Imports() {
				walk(q)
			}
		}
		for _, p := range v.pkgs {
			walk(p.Types)
		}
	}
	if p := v.extPkgs[pk]; p != nil {
		if o := p.Scope().Lookup(n); o != nil {
			return o.Type()
		}
	}
	var best *types.Package
	// a package the repository imports directly comes before one it reaches through another
	for _, q := range v.pkgs {
		for _, p := range q.Types.Imports() {
			if p.Name() == pk && (best == nil || p.Path() < best.Path()) && p.Scope().Lookup(n) != nil {
				best = p
			}
		}
	}
	if best == nil {
		for path, p := range v.extPkgs {
			if p.Name() == pk && (best == nil || path < best.Path()) && p.Scope().Lookup(n) != nil {
				best = p
			}
		}
	}
	if best != nil {
		return best.Scope().Lookup(n).Type()
	}
	return nil
}

func (v *Verifier) resolveType(s string, pkg *types.Package) (types.Type, Sort, error) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "sort:") {
		return nil, Sort(s[5:]), nil
	}
	if strings.HasPrefix(s, "typeof:") {
		p := strings.Split(s, ":")
		t := v.lookupType(p[1])
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == p[2] {
				return st.Field(i).Type(), "", nil
			}
		}
	}
	switch s {
	case "int":
		return types.Typ[types.Int], "", nil
	case "string":
		return types.Typ[types.String], "", nil
	case "bool":
		return types.Typ[types.Bool], "", nil
	case "float64":
		return types.Typ[types.Float64], "", nil
	case "byte":
		return types.Typ[types.Uint8], "", nil
	case "any":
		return types.NewInterfaceType(nil, nil), "", nil
	case "error":
		return types.Universe.Lookup("error").Type(), "", nil
	case "Int", "Bool", "Real", "Iface", "Str":
		return nil, Sort(s), nil
	}
	if t := v.lookupType(s); t != nil {
		return t, "", nil
	}
	if strings.HasPrefix(s, "[]") {
		if el, _, err := v.resolveType(s[2:], pkg); err == nil && el != nil {
			return types.NewSlice(el), "", nil
		}
	}
	if strings.HasPrefix(s, "*") {
		if el, _, err := v.resolveType(s[1:], pkg); err == nil && el != nil {
			return types.NewPointer(el), "", nil
		}
	}
	if k := strings.Index(s, "]"); strings.HasPrefix(s, "map[") && k > 0 {
		key, _, err := v.resolveType(s[4:k], pkg)
		el, _, err2 := v.resolveType(s[k+1:], pkg)
		if err == nil && err2 == nil && key != nil && el != nil {
			return types.NewMap(key, el), "", nil
		}
	}
	tv, err := types.Eval(v.fset, pkg, token.NoPos, s)
	if err != nil {
		return nil, "", err
	}
	return tv.Type, "", nil
}

func (c *Contract) ifaceMatch(v *Verifier, it types.Type, m *types.Func) bool {
	// contract "iface pkg.I.M": applies when I declares or embeds the very method m
	i := strings.LastIndex(c.Name, ".")
	t := v.lookupAnyType(c.Name[:i])
	if t == nil {
		return false
	}
	x, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < x.NumMethods(); k++ {
		if x.Method(k) == m {
			return true
		}
	}
	return false
}

func (v *Verifier) lookupAnyType(s string) types.Type {
	if t := v.lookupType(s); t != nil {
		return t
	}
	i := strings.LastIndex(s, ".")
	if i < 0 {
		if o := types.Universe.Lookup(s); o != nil {
			return o.Type()
		}
		return nil
	}
	if p := v.allPkgs[s[:i]]; p != nil {
		if o := p.Scope().Lookup(s[i+1:]); o != nil {
			return o.Type()
		}
	}
	return nil
}

// ---- evaluation ----

type specErr struct{ msg string }

func (e *Exec) specFail(c *Clause, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(f, a...)})
}

// specBoolTry evaluates a loop clause; optional clauses whose names do not resolve are skipped.
func (e *Exec) specBoolTry(cl *Clause, st *State) (t *Term, skip bool) {
	if cl.Opt {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(specErr); ok {
					t, skip = nil, true
					return
				}
				panic(r)
			}
		}()
	}
	return e.specBool(cl, e.env0, st), false
}

func (e *Exec) specBool(cl *Clause, env *specEnv, st *State) *Term {
	n := env.child()
	n.cur = st
	sv := e.eval(n, cl.Expr)
	t, ok := sv.v.(*Term)
	if !ok || t.sort != sBool {
		panic(specErr{fmt.Sprintf("%s:%d: not a boolean: %s", cl.File, cl.Line, cl.Text)})
	}
	return t
}

// withState evaluates f with the machine state set to st for heap reads.
func (e *Exec) withState(st *State, f func()) {
	save := e.st
	// facts about loads depend only on the allocation frontier and pc
	e.st = st
	f()
	e.st = save
}

func (e *Exec) eval(n *specEnv, x ast.Expr) SV {
	c := e.c
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n, x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			return SV{bigLit(c, x.Value), types.Typ[types.UntypedInt]}
		case token.FLOAT:
			return SV{e.realConstText(x.Value), types.Typ[types.Float64]}
		case token.STRING:
			s := x.Value
			var out string
			if s[0] == '`' {
				out = s[1 : len(s)-1]
			} else {
				fmt.Sscanf(s, "%q", &out)
			}
			return SV{c.StrLit(out), types.Typ[types.String]}
		case token.CHAR:
			var r rune
			fmt.Sscanf(x.Value, "%q", &r)
			return SV{c.Int(int64(r)), types.Typ[types.UntypedInt]}
		}
	case *ast.Ident:
		return e.evalIdent(n, x.Name)
	case *ast.SelectorExpr:
		return e.evalSelector(n, x)
	case *ast.StarExpr:
		p := e.eval(n, x.X)
		pt, ok := p.t.Underlying().(*types.Pointer)
		if !ok {
			panic(specErr{"not a pointer in spec"})
		}
		var r Value
		e.withState(n.cur, func() { r = e.loadAddr(n.cur, e.deref(p.v, pt.Elem())) })
		return SV{r, pt.Elem()}
	case *ast.UnaryExpr:
		v := e.eval(n, x.X)
		switch x.Op {
		case token.NOT:
			return SV{c.Not(v.v.(*Term)), types.Typ[types.Bool]}
		case token.SUB:
			t := v.v.(*Term)
			if t.sort == sReal {
				return SV{c.Op("-", sReal, t), v.t}
			}
			return SV{c.Neg(t), v.t}
		}
	case *ast.BinaryExpr:
		return e.evalBinary(n, x)
	case *ast.IndexExpr:
		a := e.eval(n, x.X)
		i := e.eval(n, x.Index)
		if a.t == nil {
			t := a.v.(*Term)
			return SV{c.Select(t, i.v.(*Term)), nil}
		}
		switch u := a.t.Underlying().(type) {
		case *types.Slice:
			s := a.v.(*SliceV)
			var r Value
			e.withState(n.cur, func() {
				r = e.loadAddr(n.cur, &AddrV{kind: "elem", key: elemKey(u.Elem()), ref: s.arr, idx: c.Add(s.off, i.v.(*Term)), t: u.Elem()})
			})
			return SV{r, u.Elem()}
		case *types.Map:
			var r Value
			k := e.coerce(i, u.Key())
			e.withState(n.cur, func() { r = e.mapGet(n.cur, u, a.v.(*Term), e.flatten(k, u.Key())[0]) })
			return SV{r, u.Elem()}
		case *types.Array:
			av := a.v.(*ArrayV)
			var ts []*Term
			for _, t := range av.a {
				ts = append(ts, c.Select(t, i.v.(*Term)))
			}
			return SV{e.unflatten(u.Elem(), ts), u.Elem()}
		case *types.Basic:
			return SV{e.strAt(a.v.(*Term), i.v.(*Term)), types.Typ[types.Uint8]}
		}
	case *ast.SliceExpr:
		a := e.eval(n, x.X)
		lo := c.Int(0)
		if x.Low != nil {
			lo = e.eval(n, x.Low).v.(*Term)
		}
		if s, ok := a.v.(*SliceV); ok {
			hi := s.ln
			if x.High != nil {
				hi = e.eval(n, x.High).v.(*Term)
			}
			return SV{&SliceV{s.arr, c.Add(s.off, lo), c.Sub(hi, lo), c.Sub(s.cp, lo)}, a.t}
		}
		s := a.v.(*Term)
		hi := e.strLen(s)
		if x.High != nil {
			hi = e.eval(n, x.High).v.(*Term)
		}
		return SV{e.strSub(s, lo, hi), a.t}
	case *ast.CallExpr:
		return e.evalCall(n, x)
	}
	panic(specErr{fmt.Sprintf("unsupported spec expression %T", x)})
}

func (e *Exec) realConstText(s string) *Term {
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return e.c.RealLit(s)
}

func (e *Exec) evalIdent(n *specEnv, name string) SV {
	c := e.c
	switch name {
	case "nil":
		return SV{nil, types.Typ[types.UntypedNil]}
	case "true":
		return SV{c.True(), types.Typ[types.Bool]}
	case "false":
		return SV{c.False(), types.Typ[types.Bool]}
	}
	if e.curLoop != nil && !n.past {
		if v, ok := e.reassignedParam(n, name); ok {
			return v
		}
	}
	if v, ok := n.lookup(name); ok {
		return v
	}
	if n.lets != nil {
		if cl, ok := n.lets[name]; ok {
			return e.eval(n, cl.Expr)
		}
	}
	if strings.HasPrefix(name, "iter") && e.curLoop != nil {
		lc := e.curLoop
		if len(name) > 4 { // iter1: the loop with ordinal 1
			var k int
			fmt.Sscanf(name[4:], "%d", &k)
			for lc != nil && e.loopOrdinal2(lc) != k {
				lc = lc.outer
			}
			if lc == nil {
				panic(specErr{"no enclosing loop " + name})
			}
		}
		return SV{lc.iter, types.Typ[types.Int]}
	}
	if e.curLoop != nil {
		if v, ok := e.localName(name); ok {
			return v
		}
	}
	if n.pkg != nil {
		if o := n.pkg.Scope().Lookup(name); o != nil {
			return e.evalObj(n, o)
		}
	}
	panic(specErr{"unknown name " + name})
}

func (e *Exec) loopOrdinal2(lc *loopCtx) int {
	for k, n := range e.loopOrdOf {
		if strings.HasSuffix(k, fmt.Sprintf("#%s#%d", lc.fr.fn.String(), lc.header.Index)) {
			return n
		}
	}
	return -1
}

// reassignedParam is the current value of a parameter the function assigns to, inside a loop.
func (e *Exec) reassignedParam(n *specEnv, name string) (SV, bool) {
	for x := n; x != nil; x = x.up {
		if _, ok := x.names[name]; !ok {
			continue
		}
		i, ok := x.param[name]
		if !ok {
			return SV{}, false
		}
		for lc := e.curLoop; lc != nil; lc = lc.outer {
			if lc.fr.fn != e.nopanicRoot || i >= len(lc.fr.fn.Params) {
				continue
			}
			p := lc.fr.fn.Params[i]
			for ph, v := range lc.phis {
				if ph.Comment == p.Name() && types.Identical(ph.Type(), p.Type()) {
					return SV{v, ph.Type()}, true
				}
			}
			for v, x := range lc.fr.vals {
				if a, ok := v.(*ssa.Alloc); ok && a.Comment == p.Name() {
					el := a.Type().Underlying().(*types.Pointer).Elem()
					if types.Identical(el, p.Type()) && a.Pos() == p.Pos() {
						return SV{e.loadAddr(e.st, e.deref(x, el)), el}, true
					}
				}
			}
		}
		return SV{}, false
	}
	return SV{}, false
}

// localName resolves a local variable of the loop's function: header phis first, then cells.
func (e *Exec) localName(name string) (SV, bool) {
	for lc := e.curLoop; lc != nil; lc = lc.outer {
		for ph, v := range lc.phis {
			if ph.Comment == name {
				return SV{v, ph.Type()}, true
			}
		}
		vs := sortedVals(lc.fr)
		for _, v := range vs {
			x := lc.fr.vals[v]
			if a, ok := v.(*ssa.Alloc); ok && a.Comment == name && a.Block().Dominates(lc.header) {
				el := a.Type().Underlying().(*types.Pointer).Elem()
				return SV{e.loadAddr(e.st, e.deref(x, el)), el}, true
			}
			if p, ok := v.(*ssa.Phi); ok && p.Comment == name && p.Block().Dominates(lc.header) {
				return SV{x, p.Type()}, true
			}
		}
		for _, v := range vs {
			x := lc.fr.vals[v]
			refs := v.Referrers()
			if refs == nil {
				continue
			}
			in, ok := v.(ssa.Instruction)
			if ok && in.Block() != nil && !in.Block().Dominates(lc.header) {
				continue
			}
			for _, r := range *refs {
				if d, ok := r.(*ssa.DebugRef); ok && !d.IsAddr {
					if id, ok := d.Expr.(*ast.Ident); ok && id.Name == name {
						return SV{x, v.Type()}, true
					}
				}
			}
		}
	}
	if e.curLoop != nil {
		for fr := e.curLoop.fr.parent; fr != nil; fr = fr.parent {
			for _, a := range heapVars(fr) {
				if x, ok := fr.vals[a]; ok && a.Comment == name {
					el := a.Type().Underlying().(*types.Pointer).Elem()
					return SV{e.loadAddr(e.st, e.deref(x, el)), el}, true
				}
			}
		}
	}
	return SV{}, false
}

// heapVars lists the variables a function keeps in memory, in the order of the code.
func heapVars(fr *frame) (out []*ssa.Alloc) {
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				out = append(out, a)
			}
		}
	}
	return
}

func domDepth(b *ssa.BasicBlock) (n int) {
	for ; b != nil; b = b.Idom() {
		n++
	}
	return
}

// sortedVals lists the values of a frame, innermost dominating block first.
func sortedVals(fr *frame) []ssa.Value {
	var vs []ssa.Value
	for v := range fr.vals {
		vs = append(vs, v)
	}
	blk := func(v ssa.Value) *ssa.BasicBlock {
		if in, ok := v.(ssa.Instruction); ok {
			return in.Block()
		}
		return nil
	}
	sort.Slice(vs, func(i, j int) bool {
		a, b := blk(vs[i]), blk(vs[j])
		if (a == nil) != (b == nil) {
			return b == nil
		}
		if a != nil && a != b {
			if x, y := domDepth(a), domDepth(b); x != y {
				return x > y
			}
			return a.Index > b.Index
		}
		return vs[i].Name() > vs[j].Name()
	})
	return vs
}

// localOfType finds locals by type, so that specifications survive renaming.
func (e *Exec) localOfType(t types.Type, k int) (SV, bool) {
	lc := e.curLoop
	if lc == nil {
		return SV{}, false
	}
	var out []SV
	seen := map[*Term]bool{}
	add := func(v Value, vt types.Type) {
		if tm, ok := v.(*Term); ok {
			if seen[tm] {
				return
			}
			seen[tm] = true
		}
		out = append(out, SV{v, vt})
	}
	for _, in := range lc.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && types.Identical(ph.Type(), t) {
			if v, ok := lc.phis[ph]; ok {
				add(v, ph.Type())
			}
		}
	}
	made := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc:
			return true
		}
		return false
	}
	for pass := 0; pass < 2; pass++ {
		for _, b := range lc.fr.fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || made(v) != (pass == 0) {
					continue
				}
				x, ok := lc.fr.vals[v]
				if !ok || b == lc.header || !b.Dominates(lc.header) {
					continue
				}
				if a, ok := v.(*ssa.Alloc); ok {
					el := a.Type().Underlying().(*types.Pointer).Elem()
					if types.Identical(el, t) {
						out = append(out, SV{e.loadAddr(e.st, e.deref(x, el)), el})
						continue
					}
				}
				if types.Identical(v.Type(), t) {
					add(x, v.Type())
				}
			}
		}
	}
	// variables of the functions this one is inlined into
	for fr := lc.fr.parent; fr != nil; fr = fr.parent {
		for _, a := range heapVars(fr) {
			if x, ok := fr.vals[a]; ok {
				if el := a.Type().Underlying().(*types.Pointer).Elem(); types.Identical(el, t) {
					out = append(out, SV{e.loadAddr(e.st, e.deref(x, el)), el})
				}
			}
		}
	}
	if k < len(out) {
		return out[k], true
	}
	return SV{}, false
}

func (e *Exec) evalObj(n *specEnv, o types.Object) SV {
	switch o := o.(type) {
	case *types.Const:
		sc := ssa.NewConst(o.Val(), o.Type())
		return SV{e.constVal(sc), o.Type()}
	case *types.Var:
		if pkg := e.v.prog.Package(o.Pkg()); pkg != nil {
			if g, ok := pkg.Members[o.Name()].(*ssa.Global); ok {
				var r Value
				e.withState(n.cur, func() { r = e.loadGlobal(g, o.Type()) })
				return SV{r, o.Type()}
			}
		}
		// external variable
		if types.IsInterface(o.Type()) {
			id := e.v.extErr(o.Pkg().Path() + "." + o.Name())
			return SV{e.c.IOther(e.c.Int(1), e.c.Int(int64(-id))), o.Type()}
		}
	}
	panic(specErr{"cannot use " + o.String() + " in a specification"})
}

func (e *Exec) evalSelector(n *specEnv, x *ast.SelectorExpr) SV {
	if id, ok := x.X.(*ast.Ident); ok {
		if _, isName := n.lookup(id.Name); !isName {
			if p := e.v.pkgByName(id.Name, n.pkg); p != nil {
				if o := p.Scope().Lookup(x.Sel.Name); o != nil {
					return e.evalObj(n, o)
				}
			}
		}
	}
	if in, ok := x.X.(*ast.SelectorExpr); ok {
		// a field of a struct held in an external struct that is reached through a pointer
		names := []string{in.Sel.Name, x.Sel.Name}
		base := in.X
		for {
			b, ok := base.(*ast.SelectorExpr)
			if !ok {
				break
			}
			names, base = append([]string{b.Sel.Name}, names...), b.X
		}
		if r, ok := e.opaquePath(n, base, names); ok {
			return r
		}
	}
	v := e.eval(n, x.X)
	return e.field(n, v, x.Sel.Name)
}

func (e *Exec) opaquePath(n *specEnv, base ast.Expr, names []string) (SV, bool) {
	if _, ok := base.(*ast.CallExpr); !ok {
		return SV{}, false
	}
	v := e.eval(n, base)
	if v.t == nil {
		return SV{}, false
	}
	pt, ok := v.t.Underlying().(*types.Pointer)
	if !ok || !isOpaqueStruct(pt.Elem()) {
		return SV{}, false
	}
	cur, addr := pt.Elem(), v.v
	for i, nm := range names {
		st, ok := cur.Underlying().(*types.Struct)
		if !ok || !isOpaqueStruct(cur) {
			return SV{}, false
		}
		var f *types.Var
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == nm {
				f = st.Field(j)
			}
		}
		if f == nil {
			return SV{}, false
		}
		save, q := e.nopanic, e.quant
		e.nopanic = false
		e.quant++
		e.withState(n.cur, func() { addr = e.fieldAddr(addr, cur, f, token.NoPos) })
		e.nopanic, e.quant = save, q
		cur = f.Type()
		if i == len(names)-1 {
			var r Value
			e.withState(n.cur, func() { r = e.loadAddr(n.cur, addr.(*AddrV)) })
			return SV{r, cur}, true
		}
	}
	return SV{}, false
}

func (e *Exec) field(n *specEnv, v SV, name string) SV {
	if v.t == nil {
		panic(specErr{"field " + name + " of a non-Go value"})
	}
	t := v.t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			panic(specErr{"field of " + t.String()})
		}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Name() == name {
				var r Value
				e.withState(n.cur, func() {
					save := e.nopanic
					e.nopanic = false
					q := e.quant
					e.quant++ // no implicit nil checks from specifications
					a := e.fieldAddr(v.v, pt.Elem(), f, token.NoPos).(*AddrV)
					e.quant = q
					r = e.loadAddr(n.cur, a)
					e.nopanic = save
				})
				return SV{r, f.Type()}
			}
			if f := st.Field(i); f.Embedded() {
				if _, idx := findField(f.Type(), name); idx {
					return e.field(n, e.field(n, v, f.Name()), name)
				}
			}
		}
		panic(specErr{"no field " + name + " in " + t.String()})
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(specErr{"field " + name + " of " + t.String()})
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == name {
			if sv, ok := v.v.(*StructV); ok {
				return SV{sv.f[i], f.Type()}
			}
			return SV{e.opaqueField(v.v.(*Term), t, f), f.Type()}
		}
	}
	panic(specErr{"no field " + name + " in " + t.String()})
}

func findField(t types.Type, name string) (*types.Var, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i), true
		}
	}
	return nil, false
}

// coerce adapts an untyped specification value to a Go type.
func (e *Exec) coerce(v SV, t types.Type) Value {
	if v.t != nil {
		if b, ok := v.t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return e.zero(t)
		}
	}
	if t == nil {
		return v.v
	}
	if types.IsInterface(t) && v.t != nil && !types.IsInterface(v.t) {
		if b, ok := v.t.(*types.Basic); ok && b.Kind() == types.UntypedInt {
			return e.box(v.v, types.Typ[types.Int])
		}
		return e.box(v.v, v.t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		if x, ok := v.v.(*Term); ok && x.sort == sInt {
			if x.num != nil {
				return e.c.RealLit(realText(x.num))
			}
			return e.c.Op("to_real", sReal, x)
		}
	}
	return v.v
}

func (e *Exec) evalBinary(n *specEnv, x *ast.BinaryExpr) SV {
	c := e.c
	bt := types.Typ[types.Bool]
	switch x.Op {
	case token.LAND:
		a := e.eval(n, x.X).v.(*Term)
		if a.isFalse() {
			return SV{a, bt}
		}
		return SV{c.And(a, e.eval(n, x.Y).v.(*Term)), bt}
	case token.LOR:
		a := e.eval(n, x.X).v.(*Term)
		if a.isTrue() {
			return SV{a, bt}
		}
		return SV{c.Or(a, e.eval(n, x.Y).v.(*Term)), bt}
	}
	a, b := e.eval(n, x.X), e.eval(n, x.Y)
	switch x.Op {
	case token.EQL:
		return SV{e.specEq(a, b), bt}
	case token.NEQ:
		return SV{c.Not(e.specEq(a, b)), bt}
	}
	s, t := a.v.(*Term), b.v.(*Term)
	if s.sort == sReal && t.sort == sInt {
		t = e.coerce(b, types.Typ[types.Float64]).(*Term)
	}
	if t.sort == sReal && s.sort == sInt {
		s = e.coerce(a, types.Typ[types.Float64]).(*Term)
	}
	rt := a.t
	if rt == types.Typ[types.UntypedInt] {
		rt = b.t
	}
	if s.sort == sReal {
		rt = types.Typ[types.Float64]
	}
	switch x.Op {
	case token.LSS:
		if s.sort == "Str" {
			return SV{e.strLess(s, t, true), bt}
		}
		return SV{c.Lt(s, t), bt}
	case token.LEQ:
		if s.sort == "Str" {
			return SV{e.strLess(s, t, false), bt}
		}
		return SV{c.Le(s, t), bt}
	case token.GTR:
		if s.sort == "Str" {
			return SV{e.strLess(t, s, true), bt}
		}
		return SV{c.Lt(t, s), bt}
	case token.GEQ:
		if s.sort == "Str" {
			return SV{e.strLess(t, s, false), bt}
		}
		return SV{c.Le(t, s), bt}
	case token.ADD:
		if s.sort == c.strSort() {
			return SV{e.strCat(s, t), rt}
		}
		return SV{c.Add(s, t), rt}
	case token.SUB:
		return SV{c.Sub(s, t), rt}
	case token.MUL:
		return SV{c.Mul(s, t), rt}
	case token.QUO:
		if s.sort == sReal {
			return SV{c.Op("/", sReal, s, t), rt}
		}
		return SV{c.Op("div", sInt, s, t), rt}
	case token.REM:
		return SV{c.Op("mod", sInt, s, t), rt}
	}
	panic(specErr{"operator " + x.Op.String()})
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

// specEq is equality of whole values (slices: same header).
func (e *Exec) specEq(a, b SV) *Term {
	c := e.c
	if a.t != nil && isUntypedNil(a.t) {
		a, b = b, a
	}
	if b.t != nil && isUntypedNil(b.t) {
		switch v := a.v.(type) {
		case *SliceV:
			return c.Eq(v.arr, c.Int(0))
		case *FuncV:
			return c.False()
		case *AddrV:
			return c.False()
		case *Term:
			if v.sort == sIface {
				return c.IsBox(v, "inil")
			}
			return c.Eq(v, c.Int(0))
		}
		return c.True()
	}
	av, bv := a.v, b.v
	if a.t != nil && b.t != nil {
		if types.IsInterface(a.t) && !types.IsInterface(b.t) {
			bv = e.coerce(b, a.t)
		} else if types.IsInterface(b.t) && !types.IsInterface(a.t) {
			av = e.coerce(a, b.t)
		}
	}
	if x, ok := av.(*Term); ok {
		if y, ok := bv.(*Term); ok {
			if x.sort == sReal && y.sort == sInt {
				y = e.coerce(b, types.Typ[types.Float64]).(*Term)
			}
			if y.sort == sReal && x.sort == sInt {
				x = e.coerce(a, types.Typ[types.Float64]).(*Term)
			}
			return c.Eq(x, y)
		}
	}
	xs, ys := e.flatten(av, a.t), e.flatten(bv, b.t)
	if len(xs) != len(ys) {
		panic(specErr{"comparing values of different shape"})
	}
	var es []*Term
	for i := range xs {
		es = append(es, c.Eq(xs[i], ys[i]))
	}
	return c.And(es...)
}

func (v *Verifier) pkgByName(name string, from *types.Package) *types.Package {
	if from != nil {
		for _, im := range from.Imports() {
			if im.Name() == name {
				return im
			}
		}
	}
	for _, p := range v.pkgs {
		if p.Types.Name() == name && name != "" {
			return p.Types
		}
	}
	if p, ok := v.allPkgs[name]; ok {
		return p
	}
	return nil
}

func (e *Exec) evalCall(n *specEnv, x *ast.CallExpr) SV {
	c := e.c
	bt := types.Typ[types.Bool]
	it := types.Typ[types.Int]
	arg := func(i int) SV { return e.eval(n, x.Args[i]) }
	argT := func(i int) *Term {
		t, ok := arg(i).v.(*Term)
		if !ok {
			panic(specErr{"scalar argument expected"})
		}
		return t
	}
	strLit := func(i int) string {
		bl, ok := x.Args[i].(*ast.BasicLit)
		if !ok {
			panic(specErr{"string literal expected"})
		}
		return strings.Trim(bl.Value, "\"`")
	}
	if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
		return e.evalGoCall(n, sel, x)
	}
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		panic(specErr{"call in spec"})
	}
	switch id.Name {
	case "old":
		m := n.child()
		m.cur = n.old
		m.past = true
		if n.old == nil {
			panic(specErr{"old() outside a postcondition"})
		}
		return e.eval(m, x.Args[0])
	case "entry":
		m := n.child()
		m.cur = e.curLoop.entry
		m.past = true
		return e.eval(m, x.Args[0])
	case "imp":
		a := argT(0)
		if a.isFalse() {
			return SV{c.True(), bt}
		}
		return SV{c.Implies(a, argT(1)), bt}
	case "iff":
		return SV{c.Eq(argT(0), argT(1)), bt}
	case "not":
		return SV{c.Not(argT(0)), bt}
	case "and", "or":
		var ts []*Term
		for i := range x.Args {
			ts = append(ts, argT(i))
		}
		if id.Name == "and" {
			return SV{c.And(ts...), bt}
		}
		return SV{c.Or(ts...), bt}
	case "ite":
		p := argT(0)
		a, b := arg(1), arg(2)
		t := a.t
		if t == nil || isUntypedNil(t) || t == types.Typ[types.UntypedInt] {
			t = b.t
		}
		if t == nil {
			return SV{c.Ite(p, a.v.(*Term), b.v.(*Term)), nil}
		}
		xs, ys := e.flatten(e.coerce(a, t), t), e.flatten(e.coerce(b, t), t)
		var out []*Term
		for i := range xs {
			out = append(out, c.Ite(p, xs[i], ys[i]))
		}
		return SV{e.unflatten(t, out), t}
	case "forall", "exists":
		// forall(i, lo, hi, body)
		nm := x.Args[0].(*ast.Ident).Name
		lo, hi := argT(1), argT(2)
		// constant small ranges are unrolled
		if lo.num != nil && hi.num != nil && hi.num.Int64()-lo.num.Int64() <= 8 {
			var ts []*Term
			for k := lo.num.Int64(); k < hi.num.Int64(); k++ {
				m := n.child()
				m.names[nm] = SV{c.Int(k), it}
				ts = append(ts, e.eval(m, x.Args[3]).v.(*Term))
			}
			if id.Name == "forall" {
				return SV{c.And(ts...), bt}
			}
			return SV{c.Or(ts...), bt}
		}
		bv := c.BoundVar(nm, sInt)
		m := n.child()
		m.names[nm] = SV{bv, it}
		e.quant++
		body := e.eval(m, x.Args[3]).v.(*Term)
		e.quant--
		rng := c.And(c.Le(lo, bv), c.Lt(bv, hi))
		if id.Name == "forall" {
			return SV{c.Quant("forall", []*Term{bv}, c.Implies(rng, body)), bt}
		}
		return SV{c.Quant("exists", []*Term{bv}, c.And(rng, body)), bt}
	case "all", "some":
		// all(k, "string", body)
		nm := x.Args[0].(*ast.Ident).Name
		gt, gs, err := e.v.resolveType(strLit(1), n.pkg)
		if err != nil {
			panic(specErr{err.Error()})
		}
		m := n.child()
		var bvs []*Term
		if gt == nil {
			bv := c.BoundVar(nm, gs)
			bvs = []*Term{bv}
			m.names[nm] = SV{bv, nil}
		} else {
			for _, l := range e.leaves(gt) {
				bvs = append(bvs, c.BoundVar(nm, l.sort))
			}
			m.names[nm] = SV{e.unflatten(gt, bvs), gt}
		}
		e.quant++
		body := e.eval(m, x.Args[2]).v.(*Term)
		e.quant--
		q := "forall"
		if id.Name == "some" {
			q = "exists"
		}
		return SV{c.Quant(q, bvs, body), bt}
	case "trig":
		// trig(body, t, ...): the terms that instantiate the quantifier around it
		var as []*Term
		for i := range x.Args {
			as = append(as, argT(i))
		}
		return SV{c.Op("!pat", sBool, as...), bt}
	case "len", "cap":
		a := arg(0)
		switch v := a.v.(type) {
		case *SliceV:
			if id.Name == "cap" {
				return SV{v.cp, it}
			}
			return SV{v.ln, it}
		case *Term:
			if mt, ok := a.t.Underlying().(*types.Map); ok {
				var r *Term
				e.withState(n.cur, func() { r = e.mapLenOf(n.cur, mt, v) })
				return SV{r, it}
			}
			return SV{e.strLen(v), it}
		}
	case "has":
		a := arg(0)
		mt, ok := a.t.Underlying().(*types.Map)
		if !ok {
			panic(specErr{"has() of a non-map"})
		}
		k := e.coerce(arg(1), mt.Key())
		return SV{e.mapHas(n.cur, mt, a.v.(*Term), e.flatten(k, mt.Key())[0]), bt}
	case "zero":
		if bl, ok := x.Args[0].(*ast.BasicLit); ok && bl.Kind == token.STRING {
			t, _, err := e.v.resolveType(strLit(0), n.pkg)
			if err != nil {
				panic(specErr{err.Error()})
			}
			return SV{e.zero(t), t}
		}
		a := arg(0)
		return SV{e.zero(a.t), a.t}
	case "nz":
		return SV{e.nonZero(arg(0)), bt}
	case "fresh":
		t := e.refOf(arg(0))
		return SV{c.Le(n.old.next, t), bt}
	case "allocated":
		t := e.refOf(arg(0))
		return SV{c.And(c.Le(c.Int(0), t), c.Lt(t, n.cur.next)), bt}
	case "ref":
		return SV{e.refOf(arg(0)), it}
	case "off":
		return SV{arg(0).v.(*SliceV).off, it}
	case "visited":
		// visited(k): key k was already seen by the innermost map range
		k := arg(0)
		return SV{e.visited(k), bt}
	case "yielded":
		// yielded(): the number of keys seen by the innermost map range
		return SV{e.visited(SV{}), types.Typ[types.Int]}
	case "typeis":
		t, _, err := e.v.resolveType(strLit(1), n.pkg)
		if err != nil {
			panic(specErr{err.Error()})
		}
		return SV{e.isType(argT(0), t), bt}
	case "as":
		t, _, err := e.v.resolveType(strLit(1), n.pkg)
		if err != nil {
			panic(specErr{err.Error()})
		}
		e.quant++
		r := e.unbox(argT(0), t)
		e.quant--
		if e.quant == 0 {
			e.withState(n.cur, func() { e.typeFacts(r, t) })
		}
		return SV{r, t}
	case "box":
		a := arg(0)
		t := a.t
		if t == types.Typ[types.UntypedInt] {
			t = types.Typ[types.Int]
		}
		return SV{e.box(a.v, t), types.NewInterfaceType(nil, nil)}
	case "bytes":
		// the contents of a byte slice as a string value
		s := arg(0).v.(*SliceV)
		h := e.heapGet(n.cur, elemKey(types.Typ[types.Uint8]), arrSort(sInt, arrSort(sInt, sInt)))
		return SV{e.strOfBytes(c.Select(h, s.arr), s.off, s.ln), types.Typ[types.String]}
	case "content":
		// the backing contents of a slice (single-leaf elements)
		a := arg(0)
		s := a.v.(*SliceV)
		el := a.t.Underlying().(*types.Slice).Elem()
		l := e.leaves(el)[0]
		return SV{c.Select(e.elemHeap(n.cur, el, l), s.arr), nil}
	case "typed":
		// typed(x, "T"): view an address-like Int as a Go value of type T
		t, _, err := e.v.resolveType(strLit(1), n.pkg)
		if err != nil {
			panic(specErr{err.Error()})
		}
		return SV{argT(0), t}
	case "real":
		return SV{e.coerce(arg(0), types.Typ[types.Float64]), types.Typ[types.Float64]}
	case "whole":
		return SV{c.Op("is_int", sBool, e.coerce(arg(0), types.Typ[types.Float64]).(*Term)), types.Typ[types.Bool]}
	case "abs":
		t := argT(0)
		z := e.zeroSort(t.sort)
		return SV{c.Ite(c.Le(z, t), t, c.Op("-", t.sort, t)), arg(0).t}
	case "min", "max":
		a, b := argT(0), argT(1)
		if id.Name == "min" {
			return SV{c.Ite(c.Le(a, b), a, b), arg(0).t}
		}
		return SV{c.Ite(c.Le(a, b), b, a), arg(0).t}
	case "local":
		// local("T") or local("T", n): the n-th variable of that type the loop updates, or that is defined before it
		t, _, err := e.v.resolveType(strLit(0), n.pkg)
		if err != nil {
			panic(specErr{err.Error()})
		}
		k := 0
		if len(x.Args) > 1 {
			k = int(argT(1).num.Int64())
		}
		if r, ok := e.localOfType(t, k); ok {
			return r
		}
		panic(specErr{"no local of type " + t.String() + " at the loop"})
	case "searched":
		// the index the last sort.Search before this point found
		if e.searched == nil {
			panic(specErr{"no sort.Search before this point"})
		}
		return SV{e.searched, types.Typ[types.Int]}
	case "jsame":
		// the same JSON value: equal for basic types, related through the codec for others
		a, b := arg(0), arg(1)
		if a.t != nil {
			fa, fb := e.flatten(a.v, a.t), e.flatten(b.v, a.t)
			if _, ok := a.t.Underlying().(*types.Basic); ok {
				return SV{c.Eq(fa[0], fb[0]), types.Typ[types.Bool]}
			}
			return SV{c.Or(e.jsame(fa[0], fb[0]), c.Eq(fa[0], fb[0])), types.Typ[types.Bool]}
		}
		panic(specErr{"jsame of a non-Go value"})
	case "runestr":
		return SV{e.convert(argT(0), types.Typ[types.Int32], types.Typ[types.String]), types.Typ[types.String]}
	case "strcode":
		if c.smtStr {
			return SV{c.Op("str.from_code", "String", argT(0)), types.Typ[types.String]}
		}
	}
	for m := n; m != nil; m = m.up {
		if r, ok := m.recs[id.Name]; ok {
			return e.recApp(n, r, x)
		}
	}
	if g, ok := e.v.ghosts[id.Name]; ok {
		k := arg(0)
		kt := e.ghostKey(k, g)
		return SV{c.Select(e.ghostGet(n.cur, g), kt), ghostType(g.Val)}
	}
	if u, ok := e.v.specUFs[id.Name]; ok {
		var ts []*Term
		for i := range x.Args {
			a := arg(i)
			var t *Term
			if s, ok := a.v.(*SliceV); ok {
				t = s.arr
			} else {
				t = a.v.(*Term)
			}
			if i < len(u.args) {
				want := e.specSort(u.args[i])
				if want == sIface && t.sort != sIface && a.t != nil {
					t = e.box(a.v, a.t)
				}
				if want == sReal && t.sort == sInt {
					t = e.coerce(a, types.Typ[types.Float64]).(*Term)
				}
			}
			ts = append(ts, t)
		}
		rs := e.specSort(u.res)
		return SV{c.App("u:"+u.name, rs, ts...), ghostType(u.res)}
	}
	if m, ok := e.v.macros[id.Name]; ok {
		if len(m.Params) != len(x.Args) {
			panic(specErr{"macro arity " + id.Name})
		}
		k := n.child()
		for i, p := range m.Params {
			k.names[p] = arg(i)
		}
		return e.eval(k, m.Body)
	}
	// a Go function of the package, or a conversion
	if n.pkg != nil {
		if o := n.pkg.Scope().Lookup(id.Name); o != nil {
			switch o := o.(type) {
			case *types.Func:
				fn := e.v.prog.FuncValue(o)
				var args []Value
				for i := range x.Args {
					args = append(args, e.coerce(arg(i), o.Type().(*types.Signature).Params().At(i).Type()))
				}
				return e.pureCall(n, fn, args)
			case *types.TypeName:
				a := arg(0)
				return SV{e.retype(a.v, o.Type()), o.Type()}
			}
		}
	}
	panic(specErr{"unknown function " + id.Name})
}

func (e *Exec) specSort(s Sort) Sort {
	if s == "Str" {
		return e.c.strSort()
	}
	return s
}

func ghostType(s Sort) types.Type {
	switch s {
	case "Int":
		return types.Typ[types.Int]
	case "Bool":
		return types.Typ[types.Bool]
	case "Real":
		return types.Typ[types.Float64]
	case "Str":
		return types.Typ[types.String]
	case "Iface":
		return types.NewInterfaceType(nil, nil)
	}
	return nil
}

func (e *Exec) ghostGet(st *State, g *ghostDecl) *Term {
	return e.heapGet(st, "G:"+g.Name, arrSort(e.specSort(g.Key), e.specSort(g.Val)))
}

func (e *Exec) ghostKey(k SV, g *ghostDecl) *Term {
	if g.Key == sIface {
		if t, ok := k.v.(*Term); ok && t.sort == sIface {
			return t
		}
		return e.box(k.v, k.t)
	}
	return e.refOf(k)
}

func (e *Exec) refOf(a SV) *Term {
	switch v := a.v.(type) {
	case *SliceV:
		return v.arr
	case *Term:
		return v
	case *AddrV:
		return e.addrTerm(v)
	}
	panic(specErr{"not a reference"})
}

// nonZero says a value differs from its type's zero value.
func (e *Exec) nonZero(a SV) *Term {
	c := e.c
	switch v := a.v.(type) {
	case *SliceV:
		return c.Not(c.Eq(v.arr, c.Int(0)))
	case *Term:
		switch {
		case v.sort == sBool:
			return v
		case v.sort == sIface:
			return c.Not(c.IsBox(v, "inil"))
		case strings.HasPrefix(string(v.sort), "O_time_Time"):
			return c.Not(c.App("time.Time.IsZero", sBool, v))
		}
		return c.Not(c.Eq(v, e.zeroSort(v.sort)))
	case *FuncV, *AddrV:
		return c.True()
	case *StructV:
		var ts []*Term
		st := v.t.Underlying().(*types.Struct)
		for i := range v.f {
			ts = append(ts, e.nonZero(SV{v.f[i], st.Field(i).Type()}))
		}
		return c.Or(ts...)
	}
	panic(specErr{"nz of this value"})
}

func (e *Exec) visited(k SV) *Term {
	for lc := e.curLoop; lc != nil; lc = lc.outer {
		// find the iterator used by a Next in the loop header
		for _, in := range lc.header.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				it, ok := lc.fr.vals[nx.Iter].(*IterV)
				if !ok {
					continue
				}
				if k.v == nil {
					return e.heapGet(e.st, it.id+"#n", sInt)
				}
				h := e.heapGet(e.st, it.id, arrSort(e.mapKeySort(it.mt), sBool))
				return e.c.Select(h, k.v.(*Term))
			}
		}
	}
	panic(specErr{"visited() outside a map range"})
}

// recApp applies a recursive specification function.
func (e *Exec) recApp(n *specEnv, r *recDef, x *ast.CallExpr) SV {
	var as []*Term
	for i := range x.Args {
		a := e.eval(n, x.Args[i])
		as = append(as, e.flatten(e.coerce(a, r.pts[i]), r.pts[i])...)
	}
	return e.recTerm(r, as)
}

func (e *Exec) recTerm(r *recDef, as []*Term) SV {
	if r.rt == nil {
		return SV{e.c.App(r.inst, e.specSort(r.rsort), as...), nil}
	}
	var ts []*Term
	for _, l := range e.leaves(r.rt) {
		ts = append(ts, e.c.App(r.inst+l.suf, l.sort, as...))
		e.recApps[r.inst+l.suf] = r
	}
	return SV{e.unflatten(r.rt, ts), r.rt}
}

// unfoldIn adds the defining equation of each ground recursive application in t.
func (e *Exec) unfoldIn(t *Term) {
	if len(e.recApps) == 0 {
		return
	}
	var apps []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if e.unfolded[t] {
			return
		}
		e.unfolded[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.nfun != "" {
			if _, ok := e.recApps[t.nfun]; ok {
				if !t.bound {
					apps = append(apps, t)
				} else {
					e.unfoldBound(t)
				}
			}
		}
	}
	walk(t)
	for _, a := range apps {
		e.unfoldApp(a)
	}
}

// unfoldBound states the defining equation of an application under a quantifier, when
// its counter is concrete.
func (e *Exec) unfoldBound(a *Term) {
	if len(a.args) < 2 || a.args[0].num == nil {
		return
	}
	c := e.c
	args := []*Term{a.args[0]}
	var vs []*Term
	for _, x := range a.args[1:] {
		v := c.BoundVar("u", x.sort)
		vs = append(vs, v)
		args = append(args, v)
	}
	key := c.mk('o', "unfB:"+a.nfun, sBool, args[:1])
	if e.unfolded[key] {
		return
	}
	e.unfolded[key] = true
	r := e.recApps[a.nfun]
	n := r.env.child()
	k := 0
	for i, p := range r.spec.Params {
		m := 1
		if r.pts[i] != nil {
			m = len(e.leaves(r.pts[i]))
			n.names[p] = SV{e.unflatten(r.pts[i], args[k:k+m]), r.pts[i]}
		} else {
			n.names[p] = SV{args[k], nil}
		}
		k += m
	}
	lhs := e.recTerm(r, args)
	save := e.curLoop
	e.curLoop = nil
	e.quant++
	rhs := e.eval(n, r.spec.Body.Expr)
	e.quant--
	e.curLoop = save
	if r.rt != nil {
		rhs = SV{e.coerce(rhs, r.rt), r.rt}
	}
	e.assumeRaw(c.Quant("forall", vs, e.specEq(lhs, rhs)))
}

func (e *Exec) unfoldApp(a *Term) {
	r := e.recApps[a.nfun]
	if e.unfDepth > 0 {
		num := false
		for _, x := range a.args {
			num = num || x.num != nil
		}
		if !num {
			return
		}
	}
	if e.unfDepth > 40 {
		return
	}
	e.unfDepth++
	defer func() { e.unfDepth-- }()
	n := r.env.child()
	k := 0
	for i, p := range r.spec.Params {
		m := 1
		if r.pts[i] != nil {
			m = len(e.leaves(r.pts[i]))
			n.names[p] = SV{e.unflatten(r.pts[i], a.args[k:k+m]), r.pts[i]}
		} else {
			n.names[p] = SV{a.args[k], nil}
		}
		k += m
	}
	lhs := e.recTerm(r, a.args)
	saveLoop := e.curLoop
	e.curLoop = nil
	rhs := e.eval(n, r.spec.Body.Expr)
	e.curLoop = saveLoop
	if r.rt != nil {
		rhs = SV{e.coerce(rhs, r.rt), r.rt}
	}
	// mark all leaves of this application as unfolded
	for _, l := range e.flatten(lhs.v, r.rt) {
		e.unfolded[l] = true
	}
	e.assumeRaw(e.specEq(lhs, rhs))
}

// evalGoCall evaluates a real Go method or package function inside a specification.
func (e *Exec) evalGoCall(n *specEnv, sel *ast.SelectorExpr, x *ast.CallExpr) SV {
	if id, ok := sel.X.(*ast.Ident); ok {
		if _, isName := n.lookup(id.Name); !isName {
			if p := e.v.pkgByName(id.Name, n.pkg); p != nil {
				if o, ok := p.Scope().Lookup(sel.Sel.Name).(*types.Func); ok {
					fn := e.v.prog.FuncValue(o)
					var args []Value
					for i := range x.Args {
						args = append(args, e.coerce(e.eval(n, x.Args[i]), o.Type().(*types.Signature).Params().At(i).Type()))
					}
					return e.pureCall(n, fn, args)
				}
				if o, ok := p.Scope().Lookup(sel.Sel.Name).(*types.TypeName); ok {
					return SV{e.retype(e.eval(n, x.Args[0]).v, o.Type()), o.Type()}
				}
			}
		}
	}
	recv := e.eval(n, sel.X)
	obj, _, _ := types.LookupFieldOrMethod(recv.t, true, n.pkg, sel.Sel.Name)
	m, ok := obj.(*types.Func)
	if !ok {
		panic(specErr{"no method " + sel.Sel.Name})
	}
	fn := e.v.prog.FuncValue(m)
	if fn == nil {
		panic(specErr{"no body for " + sel.Sel.Name})
	}
	rv := recv.v
	if _, isp := m.Type().(*types.Signature).Recv().Type().(*types.Pointer); !isp {
		if pt, ok := recv.t.Underlying().(*types.Pointer); ok {
			rv = e.loadAddr(n.cur, e.deref(recv.v, pt.Elem()))
		}
	}
	args := []Value{rv}
	for i := range x.Args {
		args = append(args, e.coerce(e.eval(n, x.Args[i]), m.Type().(*types.Signature).Params().At(i).Type()))
	}
	return e.pureCall(n, fn, args)
}

// pureCall runs a function symbolically for its result only.
func (e *Exec) pureCall(n *specEnv, fn *ssa.Function, args []Value) SV {
	save := e.st
	saveNP := e.nopanic
	e.nopanic = false
	e.st = n.cur.clone()
	e.dry++
	saveLoop := e.curLoop
	vs := e.callFn(fn, args, nil, token.NoPos)
	e.curLoop = saveLoop
	e.dry--
	e.st = save
	e.nopanic = saveNP
	if len(vs) == 1 {
		return SV{vs[0], fn.Signature.Results().At(0).Type()}
	}
	return SV{TupleV(vs), fn.Signature.Results()}
}

// ---- contract use ----

func (e *Exec) conEnv(con *Contract, args []Value, ats []types.Type, pkg *types.Package, old, cur *State) *specEnv {
	n := &specEnv{names: map[string]SV{}, recs: map[string]*recDef{}, pkg: pkg, old: old, cur: cur, lets: map[string]*Clause{}}
	n.param = map[string]int{}
	for i, p := range con.Params {
		if i < len(args) {
			n.names[p] = SV{args[i], ats[i]}
			n.param[p] = i
		}
	}
	for _, l := range con.Lets {
		n.lets[l.Name] = l.C
	}
	for _, r := range con.Recs {
		e.c.fresh["rec"]++
		d := &recDef{inst: fmt.Sprintf("rec:%s!%d", r.Name, e.c.fresh["rec"]), spec: r, env: n}
		for _, p := range r.Ptypes {
			t, _, err := e.v.resolveType(p, pkg)
			if err != nil {
				panic(specErr{err.Error()})
			}
			d.pts = append(d.pts, t)
		}
		t, s, err := e.v.resolveType(r.Rtype, pkg)
		if err != nil {
			panic(specErr{err.Error()})
		}
		d.rt, d.rsort = t, s
		if t == nil {
			e.recApps[d.inst] = d
		}
		n.recs[r.Name] = d
	}
	return n
}

func (e *Exec) bindResults(con *Contract, n *specEnv, vs []Value, sig *types.Signature) {
	for i, v := range vs {
		t := sig.Results().At(i).Type()
		if i < len(con.Results) {
			n.names[con.Results[i]] = SV{v, t}
		}
		n.names[fmt.Sprintf("result%d", i)] = SV{v, t}
		if len(vs) == 1 {
			n.names["result"] = SV{v, t}
		}
	}
}

func (e *Exec) applyContract(con *Contract, args []Value, fn *ssa.Function, sig *types.Signature, pos token.Pos) []Value {
	var ats []types.Type
	if fn != nil {
		for _, p := range fn.Params {
			ats = append(ats, p.Type())
		}
		if len(ats) == 0 {
			var rt types.Type
			if sig.Recv() != nil {
				rt = sig.Recv().Type()
			}
			ats = argTypes(sig, rt)
		}
	} else if con.Kind == "iface" {
		i := strings.LastIndex(con.Name, ".")
		ats = append([]types.Type{e.v.lookupAnyType(con.Name[:i])}, argTypes(sig, nil)...)
	} else {
		ats = append([]types.Type{types.Typ[types.Int]}, argTypes(sig, nil)...)
	}
	var pkg *types.Package
	if fn != nil && fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn != nil && fn.Object() != nil {
		pkg = fn.Object().Pkg()
	} else if e.root != nil && e.root.Pkg != nil {
		pkg = e.root.Pkg.Pkg
	}
	if con.Assumed {
		e.assumed[con.Kind+" "+con.Name] = true
	} else {
		e.inlined["contract:"+con.Name] = true
	}
	if con.Pure {
		// result is a function of the argument values
		var as []*Term
		for i, a := range args {
			as = append(as, e.flatten(a, ats[i])...)
		}
		var out []Value
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			var ts []*Term
			for _, l := range e.leaves(rt) {
				nm := con.Name
				if i > 0 {
					nm = fmt.Sprintf("%s#%d", nm, i)
				}
				ts = append(ts, e.c.App(nm+l.suf, l.sort, as...))
			}
			v := e.unflatten(rt, ts)
			e.typeFacts(v, rt)
			out = append(out, v)
		}
		n := e.conEnv(con, args, ats, pkg, e.st, e.st)
		e.bindResults(con, n, out, sig)
		if e.quant == 0 {
			for _, cl := range con.Ensures {
				e.assume(e.specBool(cl, n, e.st))
			}
		}
		return out
	}
	pre := e.st.clone()
	n := e.conEnv(con, args, ats, pkg, pre, pre)
	saveLoop := e.curLoop
	e.curLoop = nil
	for _, cl := range con.Requires {
		e.obligeNamed("call "+con.Name+" requires: "+cl.Label, "precondition", cl.Text, cl.Tags, e.specBool(cl, n, e.st), pos)
	}
	nn := e.c.Fresh("alloc", sInt)
	e.assumeRaw(e.c.Le(e.st.next, nn))
	e.st.next = nn
	for _, m := range con.Modifies {
		for _, loc := range e.modLocs(n, m, pre) {
			e.havocLoc(loc)
		}
	}
	if !con.HasMod && con.Assumed {
		for i, a := range args {
			e.havocReach(a, ats[i], 0)
		}
	}
	out := e.freshResults(con.Name, sig)
	n.cur = e.st
	e.bindResults(con, n, out, sig)
	for _, cl := range con.Ensures {
		e.assume(e.specBool(cl, n, e.st))
	}
	e.curLoop = saveLoop
	return out
}

// modLoc is one location (or family of locations) a contract may change.
type modLoc struct {
	key  string
	sort Sort
	ref  *Term
	t    types.Type
	idx  *Term // one element of the array
}

// modLocs interprets a modifies clause in the pre-state.
func (e *Exec) modLocs(n *specEnv, m *Clause, pre *State) []modLoc {
	k := n.child()
	k.cur = pre
	return e.modExpr(k, m.Expr)
}

func (e *Exec) modExpr(k *specEnv, x ast.Expr) []modLoc {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.modExpr(k, x.X)
	case *ast.SelectorExpr:
		base := e.eval(k, x.X)
		pt, ok := base.t.Underlying().(*types.Pointer)
		if !ok {
			panic(specErr{"modifies: not a pointer"})
		}
		if a, ok := base.v.(*AddrV); ok && a.kind == "elem" {
			// a field of a struct held in an array
			var out []modLoc
			for _, l := range e.leaves(pt.Elem()) {
				f := strings.TrimPrefix(l.suf, ".")
				if i := strings.IndexAny(f, ".#@"); i >= 0 {
					f = f[:i]
				}
				if x.Sel.Name == "ALLFIELDS" || f == x.Sel.Name {
					out = append(out, modLoc{key: a.key + l.suf, sort: arrSort(sInt, arrSort(sInt, l.sort)), ref: a.ref, t: l.t, idx: a.idx})
				}
			}
			return out
		}
		ref := e.guardNil(k, x.X, base.v.(*Term))
		var out []modLoc
		for _, l := range e.leaves(pt.Elem()) {
			f := strings.TrimPrefix(l.suf, ".")
			if i := strings.IndexAny(f, ".#@"); i >= 0 {
				f = f[:i]
			}
			if x.Sel.Name == "ALLFIELDS" || f == x.Sel.Name {
				out = append(out, modLoc{structKey(pt.Elem()) + l.suf, arrSort(sInt, l.sort), ref, l.t, nil})
			}
		}
		if len(out) == 0 {
			panic(specErr{"modifies: no field " + x.Sel.Name})
		}
		return out
	case *ast.StarExpr:
		base := e.eval(k, x.X)
		pt := base.t.Underlying().(*types.Pointer)
		ref := base.v.(*Term)
		a := e.deref(ref, pt.Elem())
		var out []modLoc
		for _, l := range e.leaves(pt.Elem()) {
			out = append(out, modLoc{a.key + l.suf, arrSort(sInt, l.sort), ref, l.t, nil})
		}
		return out
	case *ast.CallExpr:
		id := x.Fun.(*ast.Ident).Name
		switch id {
		case "elems":
			a := e.eval(k, x.Args[0])
			el := a.t.Underlying().(*types.Slice).Elem()
			var out []modLoc
			for _, l := range e.leaves(el) {
				out = append(out, modLoc{elemKey(el) + l.suf, arrSort(sInt, arrSort(sInt, l.sort)), e.guardNil(k, x.Args[0], a.v.(*SliceV).arr), nil, nil})
			}
			return out
		case "mapof":
			a := e.eval(k, x.Args[0])
			mt := a.t.Underlying().(*types.Map)
			ref := e.guardNil(k, x.Args[0], a.v.(*Term))
			ks := e.mapKeySort(mt)
			out := []modLoc{{mapKey(mt) + "!p", arrSort(sInt, arrSort(ks, sBool)), ref, nil, nil}, {mapKey(mt) + "!n", arrSort(sInt, sInt), ref, nil, nil}}
			for _, l := range e.leaves(mt.Elem()) {
				out = append(out, modLoc{mapKey(mt) + "!v" + l.suf, arrSort(sInt, arrSort(ks, l.sort)), ref, nil, nil})
			}
			return out
		case "when":
			// a place that changes only under a condition
			cond := e.eval(k, x.Args[0]).v.(*Term)
			out := e.modExpr(k, x.Args[1])
			for i := range out {
				if out[i].ref == nil {
					panic(specErr{"modifies: when needs one place"})
				}
				out[i].ref = e.c.Ite(cond, out[i].ref, e.c.Int(0))
			}
			return out
		case "anyelems":
			// every backing array of this element type
			t, _, err := e.v.resolveType(strings.Trim(x.Args[0].(*ast.BasicLit).Value, "\"`"), k.pkg)
			if err != nil {
				panic(specErr{err.Error()})
			}
			var out []modLoc
			for _, l := range e.leaves(t) {
				out = append(out, modLoc{elemKey(t) + l.suf, arrSort(sInt, arrSort(sInt, l.sort)), nil, nil, nil})
			}
			return out
		case "anyfields":
			t := e.v.lookupType(strings.Trim(x.Args[0].(*ast.BasicLit).Value, "\"`"))
			if t == nil {
				panic(specErr{"anyfields: type"})
			}
			var out []modLoc
			for _, l := range e.leaves(t) {
				out = append(out, modLoc{structKey(t) + l.suf, arrSort(sInt, l.sort), nil, l.t, nil})
			}
			return out
		}
		if g, ok := e.v.ghosts[id]; ok {
			kt := e.ghostKey(e.eval(k, x.Args[0]), g)
			return []modLoc{{"G:" + g.Name, arrSort(e.specSort(g.Key), e.specSort(g.Val)), kt, nil, nil}}
		}
	case *ast.Ident:
		if g, ok := e.v.ghosts[x.Name]; ok {
			return []modLoc{{"G:" + g.Name, arrSort(e.specSort(g.Key), e.specSort(g.Val)), nil, nil, nil}}
		}
	}
	panic(specErr{"modifies clause"})
}

// guardNil: a place reached through a nil pointer is no place.
func (e *Exec) guardNil(k *specEnv, x ast.Expr, ref *Term) *Term {
	c := e.c
	var conds []*Term
	for {
		if p, ok := x.(*ast.ParenExpr); ok {
			x = p.X
			continue
		}
		s, ok := x.(*ast.SelectorExpr)
		if !ok {
			break
		}
		b := e.eval(k, s.X)
		if b.t == nil {
			break
		}
		if _, ok := b.t.Underlying().(*types.Pointer); ok {
			if t, ok := b.v.(*Term); ok {
				conds = append(conds, c.Not(c.Eq(t, c.Int(0))))
			}
		}
		x = s.X
	}
	if len(conds) == 0 {
		return ref
	}
	return c.Ite(c.And(conds...), ref, c.Int(0))
}

func (e *Exec) havocLoc(l modLoc) {
	c := e.c
	h := e.heapGet(e.st, l.key, l.sort)
	if l.ref == nil {
		e.heapSet(l.key, c.Fresh("hv:"+l.key, l.sort))
		e.noteWrite(l.key, nil)
		return
	}
	_, vs := splitArr(l.sort)
	var f *Term
	if l.idx != nil {
		_, vs = splitArr(vs)
		f = c.Fresh("hm:"+l.key, vs)
		e.heapSet(l.key, c.Store(h, l.ref, c.Store(c.Select(h, l.ref), l.idx, f)))
	} else {
		f = c.Fresh("hm:"+l.key, vs)
		e.heapSet(l.key, c.Store(h, l.ref, f))
	}
	e.noteWrite(l.key, l.ref)
	if l.t != nil {
		ls := e.leaves(l.t)
		if len(ls) == 1 && ls[0].sort == f.sort {
			e.typeFacts(f, l.t)
		}
	}
}
