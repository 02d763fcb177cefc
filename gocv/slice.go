package main

import "strings"

// slice selects the assumptions that bear on a goal: an assumption is taken once its
// rarest symbol is among the symbols reached so far. Leaving assumptions out can only
// make a proof fail, never succeed wrongly.
func (c *Ctx) slice(facts []*Term, goal []*Term, tol float64) []*Term {
	syms := map[*Term]map[string]bool{}
	var of func(t *Term) map[string]bool
	of = func(t *Term) map[string]bool {
		if s, ok := syms[t]; ok {
			return s
		}
		s := map[string]bool{}
		if t.kind == 'c' {
			s[t.op] = true
		} else if t.kind == 'a' {
			s["f:"+t.op] = true
		} else if t.kind == 'o' && t.nfun != "" {
			s["f:"+t.nfun] = true
		}
		for _, a := range t.args {
			for k := range of(a) {
				s[k] = true
			}
		}
		syms[t] = s
		return s
	}
	occ := map[string]int{}
	seen := map[*Term]bool{}
	var fs []*Term
	for _, f := range facts {
		if seen[f] {
			continue
		}
		seen[f] = true
		fs = append(fs, f)
		for k := range of(f) {
			occ[k]++
		}
	}
	reach := map[string]bool{}
	for _, g := range goal {
		for k := range of(g) {
			reach[k] = true
		}
	}
	taken := make([]bool, len(fs))
	for changed := true; changed; {
		changed = false
		for i, f := range fs {
			if taken[i] {
				continue
			}
			min := 1 << 30
			for k := range of(f) {
				if occ[k] < min {
					min = occ[k]
				}
			}
			ok := len(of(f)) == 0
			for k := range of(f) {
				if float64(occ[k]) <= tol*float64(min) && reach[k] {
					ok = true
				}
			}
			if ok {
				taken[i] = true
				changed = true
				for k := range of(f) {
					reach[k] = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range fs {
		if taken[i] {
			out = append(out, f)
		}
	}
	return append(out, goal...)
}

// relevantAxioms are the axioms whose uninterpreted functions occur in the assertions (or in another relevant axiom).
func (e *Exec) relevantAxioms(as []*Term) []*Term {
	if len(e.axioms) == 0 {
		return nil
	}
	seen := map[*Term]bool{}
	ufs := map[string]bool{}
	var walk func(t *Term, f func(string))
	walk = func(t *Term, f func(string)) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == 'a' && strings.HasPrefix(strings.TrimPrefix(t.op, "|"), "u:") {
			f(t.op)
		}
		for _, a := range t.args {
			walk(a, f)
		}
	}
	for _, a := range as {
		walk(a, func(s string) { ufs[s] = true })
	}
	var out []*Term
	taken := map[int]bool{}
	for changed := true; changed; {
		changed = false
		for i, a := range e.axioms {
			if taken[i] {
				continue
			}
			var mine []string
			seen = map[*Term]bool{}
			walk(a, func(s string) { mine = append(mine, s) })
			hit := len(mine) == 0
			for _, s := range mine {
				hit = hit || ufs[s]
			}
			if b := a.args[max(len(a.args)-1, 0):]; a.kind == 'q' && len(b) == 1 && b[0].op == "!pat" {
				// it is never used before all functions of its trigger occur
				hit = true
				seen = map[*Term]bool{}
				for _, t := range b[0].args[1:] {
					walk(t, func(s string) { hit = hit && ufs[s] })
				}
			}
			if hit {
				taken[i], changed = true, true
				out = append(out, a)
				for _, s := range mine {
					ufs[s] = true
				}
			}
		}
	}
	return out
}
