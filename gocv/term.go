package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is the SMT-LIB text of a sort.
type Sort string

const (
	sInt   Sort = "Int"
	sBool  Sort = "Bool"
	sReal  Sort = "Real"
	sIface Sort = "Iface"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// splitArr gives the domain and range sorts of an array sort.
func splitArr(s Sort) (Sort, Sort) {
	t := string(s)
	if !strings.HasPrefix(t, "(Array ") {
		panic("not an array sort: " + t)
	}
	t = t[7 : len(t)-1]
	depth := 0
	for i, c := range t {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(t[:i]), Sort(t[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

// Term is a hash-consed SMT term.
type Term struct {
	op    string
	args  []*Term
	sort  Sort
	id    int
	bound bool // contains a bound variable
	kind  byte // 'c' declared const, 'n' numeral, 'b' bound var, 'a' application, 'q' quantifier, 'l' literal text
	num   *big.Int
	nfun  string // for applications of declared UFs: signature key
	fv    []*Term
}

// Ctx owns terms and declarations for one function's verification.
type Ctx struct {
	tab      map[string]*Term
	n        int
	consts   map[string]*Term
	order    []*Term
	ufs      map[string]*ufDecl
	fresh    map[string]int
	strs     map[string]*Term // string literal -> term (opaque mode)
	strOrd   []string
	smtStr   bool
	sorts    map[Sort]bool
	boxes    map[string]*boxT
	boxOrd   []string
	impls    map[string]*implT
	subCache map[string]*Term
}

type ufDecl struct {
	name string
	args []Sort
	res  Sort
}

func newCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, consts: map[string]*Term{}, ufs: map[string]*ufDecl{}, fresh: map[string]int{}, strs: map[string]*Term{}, sorts: map[Sort]bool{}, boxes: map[string]*boxT{}, impls: map[string]*implT{}}
}

func (c *Ctx) strSort() Sort {
	if c.smtStr {
		return "String"
	}
	return "Str"
}

func (c *Ctx) mk(kind byte, op string, sort Sort, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(kind)
	sb.WriteString(op)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	sb.WriteString("#")
	sb.WriteString(string(sort))
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{op: op, args: args, sort: sort, id: c.n, kind: kind}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	if kind == 'b' {
		t.bound = true
	}
	c.tab[k] = t
	return t
}

func quoteSym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_!.$%&*+-/<=>?@^~", r)) {
			return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "!") + "|"
		}
	}
	return s
}

// Const declares (or finds) a named constant.
func (c *Ctx) Const(name string, sort Sort) *Term {
	q := quoteSym(name)
	if t, ok := c.consts[q]; ok {
		if t.sort != sort {
			panic(fmt.Sprintf("const %s: sort clash %s / %s", name, t.sort, sort))
		}
		return t
	}
	t := c.mk('c', q, sort, nil)
	c.consts[q] = t
	c.noteSort(sort)
	c.order = append(c.order, t)
	return t
}

func (c *Ctx) noteSort(s Sort) {
	t := string(s)
	if strings.HasPrefix(t, "(Array") {
		a, b := splitArr(s)
		c.noteSort(a)
		c.noteSort(b)
		return
	}
	switch s {
	case sInt, sBool, sReal, "String":
	default:
		c.sorts[s] = true
	}
}

func (c *Ctx) Fresh(prefix string, sort Sort) *Term {
	c.fresh[prefix]++
	return c.Const(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), sort)
}

func (c *Ctx) BoundVar(name string, sort Sort) *Term {
	c.fresh["bv"]++
	return c.mk('b', fmt.Sprintf("%s!b%d", strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, name), c.fresh["bv"]), sort, nil)
}

func (c *Ctx) App(name string, res Sort, args ...*Term) *Term {
	if u, ok := c.ufs[name]; ok {
		if len(u.args) != len(args) {
			panic("arity clash for " + name)
		}
		for i, a := range args {
			if u.args[i] != a.sort {
				panic(fmt.Sprintf("uf %s: arg %d sort %s, want %s", name, i, a.sort, u.args[i]))
			}
		}
	} else {
		u := &ufDecl{name: name, res: res}
		for _, a := range args {
			u.args = append(u.args, a.sort)
			c.noteSort(a.sort)
		}
		c.noteSort(res)
		c.ufs[name] = u
	}
	if len(args) == 0 {
		t := c.mk('a', quoteSym(name), res, nil)
		t.nfun = name
		return t
	}
	t := c.mk('a', quoteSym(name), res, args)
	t.nfun = name
	return t
}

func (c *Ctx) True() *Term  { return c.mk('l', "true", sBool, nil) }
func (c *Ctx) False() *Term { return c.mk('l', "false", sBool, nil) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}
func (t *Term) isTrue() bool  { return t.kind == 'l' && t.op == "true" }
func (t *Term) isFalse() bool { return t.kind == 'l' && t.op == "false" }

func (c *Ctx) Int(i int64) *Term { return c.Big(big.NewInt(i)) }
func (c *Ctx) Big(i *big.Int) *Term {
	s := i.String()
	if i.Sign() < 0 {
		s = "(- " + s[1:] + ")"
	}
	t := c.mk('n', s, sInt, nil)
	t.num = i
	return t
}
func (c *Ctx) RealLit(s string) *Term { return c.mk('l', s, sReal, nil) }

func (c *Ctx) Not(a *Term) *Term {
	if a.isTrue() {
		return c.False()
	}
	if a.isFalse() {
		return c.True()
	}
	if a.kind == 'o' && a.op == "not" {
		return a.args[0]
	}
	return c.mk('o', "not", sBool, []*Term{a})
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.isTrue() || seen[a] {
			return true
		}
		if a.isFalse() {
			return false
		}
		if a.kind == 'o' && a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False()
		}
	}
	if len(out) == 0 {
		return c.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk('o', "and", sBool, out)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.isFalse() || seen[a] {
			continue
		}
		if a.isTrue() {
			return c.True()
		}
		if seen[c.Not(a)] {
			return c.True()
		}
		if a.kind == 'o' && a.op == "or" {
			for _, x := range a.args {
				if seen[c.Not(x)] {
					return c.True()
				}
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	if len(out) == 0 {
		return c.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts: (p&a)|(p&!a) = p
	if len(out) == 2 {
		x, y := conj(out[0]), conj(out[1])
		var common, rx, ry []*Term
		inY := map[*Term]bool{}
		for _, t := range y {
			inY[t] = true
		}
		inC := map[*Term]bool{}
		for _, t := range x {
			if inY[t] {
				common = append(common, t)
				inC[t] = true
			} else {
				rx = append(rx, t)
			}
		}
		for _, t := range y {
			if !inC[t] {
				ry = append(ry, t)
			}
		}
		if len(common) > 0 {
			if len(rx) == 0 || len(ry) == 0 {
				return c.And(common...)
			}
			a, b := c.And(rx...), c.And(ry...)
			if a == c.Not(b) {
				return c.And(common...)
			}
			return c.And(append(common, c.mk('o', "or", sBool, []*Term{a, b}))...)
		}
	}
	return c.mk('o', "or", sBool, out)
}

func conj(t *Term) []*Term {
	if t.kind == 'o' && t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() || a == b {
		return c.True()
	}
	if b.isFalse() {
		return c.Not(a)
	}
	return c.mk('o', "=>", sBool, []*Term{a, b})
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.isTrue() || a == b {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s / %s (%s | %s)", a.sort, b.sort, short(a), short(b)))
	}
	if p.kind == 'o' && p.op == "not" {
		return c.Ite(p.args[0], b, a)
	}
	if a.sort == sBool {
		if a.isTrue() && b.isFalse() {
			return p
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(p)
		}
		if a.isTrue() {
			return c.Or(p, b)
		}
		if a.isFalse() {
			return c.And(c.Not(p), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(p), a)
		}
		if b.isFalse() {
			return c.And(p, a)
		}
	}
	// collapse nested on same condition
	if a.kind == 'o' && a.op == "ite" && a.args[0] == p {
		a = a.args[1]
	}
	if b.kind == 'o' && b.op == "ite" && b.args[0] == p {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk('o', "ite", a.sort, []*Term{p, a, b})
}

// offs splits an Int term into base + constant.
func offs(t *Term) (*Term, *big.Int) {
	if t.num != nil {
		return nil, t.num
	}
	if t.kind == 'o' && t.op == "+" && len(t.args) == 2 && t.args[1].num != nil {
		return t.args[0], t.args[1].num
	}
	return t, new(big.Int)
}

func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.sort == sInt {
		ba, oa := offs(a)
		bb, ob := offs(b)
		if ba == bb && oa.Cmp(ob) != 0 {
			return true
		}
		// an allocated reference (base alloc!, offset>=0) is never 0
		if ba == nil && bb != nil && strings.HasPrefix(bb.op, "alloc!") && ob.Sign() >= 0 && oa.Sign() <= 0 {
			return true
		}
		if bb == nil && ba != nil && strings.HasPrefix(ba.op, "alloc!") && oa.Sign() >= 0 && ob.Sign() <= 0 {
			return true
		}
	}
	if a.kind == 'S' && b.kind == 'S' {
		return true
	}
	if a.kind == 'k' && b.kind == 'k' && a.op != b.op {
		return true
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s / %s (%s | %s)", a.sort, b.sort, short(a), short(b)))
	}
	if c.distinct(a, b) {
		return c.False()
	}
	if a.sort == sBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.kind == 'k' && b.kind == 'k' && a.op == b.op {
		var es []*Term
		for i := range a.args {
			es = append(es, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(es...)
	}
	if a.sort == sInt {
		ba, oa := offs(a)
		bb, ob := offs(b)
		if ba != nil && bb != nil && oa.Sign() != 0 && oa.Cmp(ob) == 0 {
			return c.Eq(ba, bb)
		}
	}
	// push equality with a constant through ite when it simplifies
	if s, k := iteConst(a, b); s != nil {
		x := c.Eq(s.args[1], k)
		y := c.Eq(s.args[2], k)
		if isLit(x) || isLit(y) {
			return c.Ite(s.args[0], x, y)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk('o', "=", sBool, []*Term{a, b})
}

func isLit(t *Term) bool { return t.isTrue() || t.isFalse() }

func iteConst(a, b *Term) (*Term, *Term) {
	isC := func(t *Term) bool { return t.num != nil || t.kind == 'S' || t.kind == 'k' || t.kind == 'l' }
	if a.kind == 'o' && a.op == "ite" && isC(b) {
		return a, b
	}
	if b.kind == 'o' && b.op == "ite" && isC(a) {
		return b, a
	}
	return nil, nil
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.sort == sReal {
		return c.mk('o', "+", sReal, []*Term{a, b})
	}
	ba, oa := offs(a)
	bb, ob := offs(b)
	sum := new(big.Int).Add(oa, ob)
	switch {
	case ba == nil && bb == nil:
		return c.Big(sum)
	case bb == nil:
		return c.addOff(ba, sum)
	case ba == nil:
		return c.addOff(bb, sum)
	}
	if sum.Sign() == 0 {
		return c.mk('o', "+", sInt, []*Term{ba, bb})
	}
	return c.addOff(c.mk('o', "+", sInt, []*Term{ba, bb}), sum)
}

func (c *Ctx) addOff(b *Term, k *big.Int) *Term {
	if k.Sign() == 0 {
		return b
	}
	return c.mk('o', "+", sInt, []*Term{b, c.Big(k)})
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a.sort == sReal {
		return c.mk('o', "-", sReal, []*Term{a, b})
	}
	if a == b {
		return c.Int(0)
	}
	if b.num != nil {
		return c.Add(a, c.Big(new(big.Int).Neg(b.num)))
	}
	ba, oa := offs(a)
	bb, ob := offs(b)
	if ba == bb && ba != nil {
		return c.Big(new(big.Int).Sub(oa, ob))
	}
	if a.kind == 'o' && a.op == "+" && a.args[0] == b {
		return a.args[1]
	}
	if a.kind == 'o' && a.op == "+" && a.args[1] == b {
		return a.args[0]
	}
	return c.mk('o', "-", sInt, []*Term{a, b})
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.num != nil {
		return c.Big(new(big.Int).Neg(a.num))
	}
	return c.mk('o', "-", a.sort, []*Term{a})
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return c.Big(new(big.Int).Mul(a.num, b.num))
	}
	if a.num != nil && a.num.Cmp(big.NewInt(1)) == 0 {
		return b
	}
	if b.num != nil && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return c.mk('o', "*", a.sort, []*Term{a, b})
}

// Op builds an interpreted application without simplification.
func (c *Ctx) Op(op string, sort Sort, args ...*Term) *Term { return c.mk('o', op, sort, args) }

func (c *Ctx) Lt(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return c.Bool(a.num.Cmp(b.num) < 0)
	}
	if a == b {
		return c.False()
	}
	if a.sort == sInt {
		ba, oa := offs(a)
		bb, ob := offs(b)
		if ba == bb && ba != nil {
			return c.Bool(oa.Cmp(ob) < 0)
		}
	}
	return c.mk('o', "<", sBool, []*Term{a, b})
}
func (c *Ctx) Le(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return c.Bool(a.num.Cmp(b.num) <= 0)
	}
	if a == b {
		return c.True()
	}
	if a.sort == sInt {
		ba, oa := offs(a)
		bb, ob := offs(b)
		if ba == bb && ba != nil {
			return c.Bool(oa.Cmp(ob) <= 0)
		}
	}
	return c.mk('o', "<=", sBool, []*Term{a, b})
}

func (c *Ctx) Select(a, i *Term) *Term {
	k, v := splitArr(a.sort)
	if k != i.sort {
		panic(fmt.Sprintf("select index sort %s want %s: %s", i.sort, k, short(a)))
	}
	for n := 0; n < 400; n++ {
		if a.kind == 'o' && a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if c.distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.kind == 'o' && a.op == "constarr" {
			return a.args[0]
		}
		if a.kind == 'o' && a.op == "ite" {
			x, y := a.args[1], a.args[2]
			sx, sy := c.Select(x, i), c.Select(y, i)
			return c.Ite(a.args[0], sx, sy)
		}
		break
	}
	return c.mk('o', "select", v, []*Term{a, i})
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	k, vs := splitArr(a.sort)
	if k != i.sort || vs != v.sort {
		panic(fmt.Sprintf("store sorts: %s [%s] := %s", a.sort, i.sort, v.sort))
	}
	if a.kind == 'o' && a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.kind == 'o' && v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk('o', "store", a.sort, []*Term{a, i, v})
}

func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk('o', "constarr", s, []*Term{v})
}

// Forall/Exists build quantifiers over bound variables.
func (c *Ctx) Quant(q string, vars []*Term, body *Term) *Term {
	if isLit(body) {
		return body
	}
	if body.kind == 'q' && body.op == q && body.args[len(body.args)-1].op == "!pat" {
		// a trigger has to cover the variables of both
		n := len(body.args)
		vars, body = append(append([]*Term{}, vars...), body.args[:n-1]...), body.args[n-1]
	}
	args := append(append([]*Term{}, vars...), body)
	t := c.mk('q', q, sBool, args)
	t.bound = len(c.freeBound(t)) > 0
	return t
}

func (c *Ctx) freeBound(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	var walk func(t *Term, scope map[*Term]bool)
	walk = func(t *Term, scope map[*Term]bool) {
		if !t.bound && t.kind != 'q' {
			return
		}
		if t.kind == 'b' {
			if !scope[t] {
				out[t] = true
			}
			return
		}
		if t.kind == 'q' {
			ns := map[*Term]bool{}
			for k := range scope {
				ns[k] = true
			}
			n := len(t.args)
			for _, v := range t.args[:n-1] {
				ns[v] = true
			}
			walk(t.args[n-1], ns)
			return
		}
		for _, a := range t.args {
			walk(a, scope)
		}
	}
	walk(t, map[*Term]bool{})
	return out
}

// Subst replaces terms by terms (used for bound variables and skolemisation).
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		changed := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = walk(a)
			if na[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = c.rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	if t.kind == 'q' {
		n := len(a)
		return c.Quant(t.op, a[:n-1], a[n-1])
	}
	if t.kind == 'o' {
		switch t.op {
		case "not":
			return c.Not(a[0])
		case "and":
			return c.And(a...)
		case "or":
			return c.Or(a...)
		case "=>":
			return c.Implies(a[0], a[1])
		case "ite":
			return c.Ite(a[0], a[1], a[2])
		case "=":
			return c.Eq(a[0], a[1])
		case "select":
			return c.Select(a[0], a[1])
		case "store":
			return c.Store(a[0], a[1], a[2])
		case "+":
			if t.sort == sInt && len(a) == 2 {
				return c.Add(a[0], a[1])
			}
		case "-":
			if len(a) == 2 {
				return c.Sub(a[0], a[1])
			}
		case "<":
			return c.Lt(a[0], a[1])
		case "<=":
			return c.Le(a[0], a[1])
		}
		if strings.HasPrefix(t.op, "is:") {
			return c.IsBox(a[0], t.op[3:])
		}
		if strings.HasPrefix(t.op, "un:") {
			var idx int
			p := strings.LastIndex(t.op, ":")
			fmt.Sscanf(t.op[p+1:], "%d", &idx)
			return c.Unbox(a[0], t.op[3:p], idx)
		}
	}
	r := c.mk(t.kind, t.op, t.sort, a)
	r.nfun = t.nfun
	return r
}

// ---- interface boxes ----

type boxT struct {
	name  string
	sorts []Sort
	impl  func(iface string) bool
	idx   int
}

type implT struct {
	name string
	ok   func(box string) bool
}

func (c *Ctx) declBox(name string, sorts []Sort) {
	if b, ok := c.boxes[name]; ok {
		if len(b.sorts) != len(sorts) {
			panic("box arity " + name)
		}
		return
	}
	c.boxes[name] = &boxT{name: name, sorts: sorts, idx: len(c.boxOrd)}
	c.boxOrd = append(c.boxOrd, name)
	for _, s := range sorts {
		c.noteSort(s)
	}
}

func (c *Ctx) Box(name string, args []*Term) *Term {
	var ss []Sort
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	c.declBox(name, ss)
	return c.mk('k', name, sIface, args)
}
func (c *Ctx) INil() *Term { return c.mk('k', "inil", sIface, nil) }
func (c *Ctx) IOther(tag, val *Term) *Term {
	return c.mk('k', "iother", sIface, []*Term{tag, val})
}

func (c *Ctx) IsBox(t *Term, name string) *Term {
	if t.kind == 'k' {
		return c.Bool(t.op == name)
	}
	if t.kind == 'o' && t.op == "ite" {
		a, b := c.IsBox(t.args[1], name), c.IsBox(t.args[2], name)
		if isLit(a) || isLit(b) {
			return c.Ite(t.args[0], a, b)
		}
	}
	return c.mk('o', "is:"+name, sBool, []*Term{t})
}

func (c *Ctx) Unbox(t *Term, name string, i int) *Term {
	if t.kind == 'k' && t.op == name {
		return t.args[i]
	}
	var s Sort
	if name == "iother" {
		s = sInt
	} else {
		s = c.boxes[name].sorts[i]
	}
	return c.mk('o', fmt.Sprintf("un:%s:%d", name, i), s, []*Term{t})
}

// ---- strings ----

func (c *Ctx) StrLit(s string) *Term {
	if c.smtStr {
		var sb strings.Builder
		sb.WriteByte('"')
		for i := 0; i < len(s); i++ {
			b := s[i]
			if b == '"' {
				sb.WriteString("\"\"")
			} else if b < 32 || b > 126 || b == '\\' {
				fmt.Fprintf(&sb, "\\u{%x}", b)
			} else {
				sb.WriteByte(b)
			}
		}
		sb.WriteByte('"')
		t := c.mk('S', sb.String(), "String", nil)
		c.strs[sb.String()] = t
		return t
	}
	if t, ok := c.strs[s]; ok {
		return t
	}
	c.noteSort("Str")
	lab := s
	if len(lab) > 24 {
		lab = lab[:24]
	}
	t := c.mk('S', quoteSym(fmt.Sprintf("lit%d_%s", len(c.strOrd), strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, lab))), "Str", nil)
	c.strs[s] = t
	c.strOrd = append(c.strOrd, s)
	return t
}

// litOf gives the Go string a literal term stands for.
func (c *Ctx) litOf(t *Term) (string, bool) {
	if t.kind != 'S' {
		return "", false
	}
	for s, x := range c.strs {
		if x == t {
			if c.smtStr {
				return unSmt(s), true
			}
			return s, true
		}
	}
	return "", false
}

func unSmt(q string) string {
	q = q[1 : len(q)-1]
	q = strings.ReplaceAll(q, "\"\"", "\"")
	var sb strings.Builder
	for i := 0; i < len(q); i++ {
		if strings.HasPrefix(q[i:], "\\u{") {
			j := strings.IndexByte(q[i:], '}')
			var x int
			fmt.Sscanf(q[i+3:i+j], "%x", &x)
			sb.WriteByte(byte(x))
			i += j
			continue
		}
		sb.WriteByte(q[i])
	}
	return sb.String()
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, nil, 0)
	return sb.String()
}

func (t *Term) write(sb *strings.Builder, names map[*Term]string, depth int) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	if depth > 40 && names == nil {
		sb.WriteString("…")
		return
	}
	t.writeRaw(sb, names, depth)
}

func (t *Term) writeRaw(sb *strings.Builder, names map[*Term]string, depth int) {
	switch t.kind {
	case 'q':
		n := len(t.args)
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.args[:n-1] {
			fmt.Fprintf(sb, "(%s %s)", v.op, v.sort)
		}
		sb.WriteString(") ")
		t.args[n-1].write(sb, names, depth+1)
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		if t.kind == 'k' {
			sb.WriteString(quoteSym(t.op))
			return
		}
		sb.WriteString(t.op)
		return
	}
	op := t.op
	if op == "!pat" {
		sb.WriteString("(! ")
		t.args[0].write(sb, names, depth+1)
		sb.WriteString(" :pattern (")
		for i, a := range t.args[1:] {
			if i > 0 {
				sb.WriteString(" ")
			}
			a.write(sb, names, depth+1)
		}
		sb.WriteString("))")
		return
	}
	switch {
	case t.kind == 'k':
		op = quoteSym(op)
	case op == "constarr":
		op = "(as const " + string(t.sort) + ")"
	case strings.HasPrefix(op, "is:"):
		op = "(_ is " + quoteSym(op[3:]) + ")"
	case strings.HasPrefix(op, "un:"):
		op = quoteSym(op)
	}
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.write(sb, names, depth+1)
	}
	sb.WriteByte(')')
}

// script prints a satisfiability query for the conjunction of the assertions.
func (c *Ctx) script(asserts []*Term, getModel bool, evals []*Term) string {
	var sb strings.Builder
	used := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		used[t]++
		if used[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		walk(a)
	}
	for _, a := range evals {
		walk(a)
	}
	sorts := map[Sort]bool{}
	ufs := map[string]bool{}
	usesIface := false
	var ns func(s Sort)
	ns = func(s Sort) {
		if strings.HasPrefix(string(s), "(Array") {
			a, b := splitArr(s)
			ns(a)
			ns(b)
			return
		}
		if s == sIface {
			usesIface = true
			return
		}
		switch s {
		case sInt, sBool, sReal, "String":
		default:
			sorts[s] = true
		}
	}
	usedBox := map[string]bool{}
	var litsUsed []*Term
	for _, t := range order {
		ns(t.sort)
		if t.nfun != "" {
			ufs[t.nfun] = true
		}
		if t.kind == 'k' {
			usedBox[t.op] = true
		}
		if t.kind == 'o' && strings.HasPrefix(t.op, "is:") {
			usedBox[t.op[3:]] = true
		}
		if t.kind == 'o' && strings.HasPrefix(t.op, "un:") {
			usedBox[t.op[3:strings.LastIndex(t.op, ":")]] = true
		}
		if t.kind == 'S' && !c.smtStr {
			litsUsed = append(litsUsed, t)
		}
	}
	var ufnames []string
	for n := range ufs {
		ufnames = append(ufnames, n)
	}
	sort.Strings(ufnames)
	for _, n := range ufnames {
		if strings.HasPrefix(n, "impl:") {
			continue
		}
		u := c.ufs[n]
		for _, s := range u.args {
			ns(s)
		}
		ns(u.res)
	}
	if usesIface {
		for b := range usedBox {
			if bt, ok := c.boxes[b]; ok {
				for _, s := range bt.sorts {
					ns(s)
				}
			}
		}
	}
	sb.WriteString("(set-logic ALL)\n")
	var sl []string
	for s := range sorts {
		sl = append(sl, string(s))
	}
	sort.Strings(sl)
	for _, s := range sl {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	if usesIface {
		sb.WriteString("(declare-datatypes ((Iface 0)) (((inil) (iother (|un:iother:0| Int) (|un:iother:1| Int))")
		for _, b := range c.boxOrd {
			if !usedBox[b] {
				continue
			}
			fmt.Fprintf(&sb, " (%s", quoteSym(b))
			for i, s := range c.boxes[b].sorts {
				fmt.Fprintf(&sb, " (%s %s)", quoteSym(fmt.Sprintf("un:%s:%d", b, i)), s)
			}
			sb.WriteString(")")
		}
		sb.WriteString(")))\n")
	}
	for _, t := range order {
		if t.kind == 'c' {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.op, t.sort)
		}
	}
	for _, t := range litsUsed {
		fmt.Fprintf(&sb, "(declare-const %s Str)\n", t.op)
	}
	for _, n := range ufnames {
		if strings.HasPrefix(n, "impl:") {
			im := c.impls[n]
			fmt.Fprintf(&sb, "(declare-fun %s (Int) Bool)\n(define-fun %s ((x Iface)) Bool (or false", quoteSym("o"+n), quoteSym(n))
			for _, b := range c.boxOrd {
				if usedBox[b] && im.ok(b) {
					fmt.Fprintf(&sb, " ((_ is %s) x)", quoteSym(b))
				}
			}
			fmt.Fprintf(&sb, " (and ((_ is iother) x) (%s (|un:iother:0| x)))))\n", quoteSym("o"+n))
			continue
		}
		u := c.ufs[n]
		var as []string
		for _, s := range u.args {
			as = append(as, string(s))
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", quoteSym(n), strings.Join(as, " "), u.res)
	}
	if len(litsUsed) > 1 {
		sb.WriteString("(assert (distinct")
		for _, t := range litsUsed {
			sb.WriteString(" " + t.op)
		}
		sb.WriteString("))\n")
	}
	if !c.smtStr && ufs["strlen"] {
		for _, t := range litsUsed {
			s, _ := c.litOf(t)
			fmt.Fprintf(&sb, "(assert (= (strlen %s) %d))\n", t.op, len(s))
		}
	}
	names := map[*Term]string{}
	k := 0
	// a ground term with an if in it, used under a quantifier: named by a constant, as triggers cannot hold an if
	hasIte := map[*Term]bool{}
	for _, t := range order {
		h := t.kind == 'o' && t.op == "ite"
		for _, a := range t.args {
			h = h || hasIte[a]
		}
		hasIte[t] = h && t.kind != 'q'
	}
	lift := map[*Term]bool{}
	for _, t := range order {
		if t.bound && t.kind != 'q' {
			for _, a := range t.args {
				if !a.bound && hasIte[a] && a.sort != sBool && len(a.args) > 0 {
					lift[a] = true
				}
			}
		}
	}
	for _, t := range order {
		if lift[t] {
			var tb strings.Builder
			t.writeRaw(&tb, names, 0)
			k++
			nm := fmt.Sprintf("$t%d", k)
			fmt.Fprintf(&sb, "(declare-const %s %s)\n(assert (= %s %s))\n", nm, t.sort, nm, tb.String())
			names[t] = nm
			continue
		}
		if used[t] > 1 && len(t.args) > 0 && !t.bound && t.kind != 'q' {
			var tb strings.Builder
			t.writeRaw(&tb, names, 0)
			k++
			nm := fmt.Sprintf("$t%d", k)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", nm, t.sort, tb.String())
			names[t] = nm
		}
	}
	for _, a := range asserts {
		sb.WriteString("(assert ")
		a.write(&sb, names, 0)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if getModel && len(evals) > 0 {
		sb.WriteString("(get-value (")
		for _, e := range evals {
			e.write(&sb, names, 0)
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}
