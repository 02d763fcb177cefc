package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func has(tags []string, p string) bool {
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

func inSlice(tags []string, p string) bool { return len(tags) == 0 || has(tags, p) }

// slice keeps the clauses of one property: a clause tagged for other properties only neither is an
// obligation nor is assumed in this run.
func (v *Verifier) slice(p string) {
	f := func(cs []*Clause) []*Clause {
		var out []*Clause
		for _, c := range cs {
			if inSlice(c.Tags, p) {
				out = append(out, c)
			}
		}
		return out
	}
	for _, c := range v.contracts {
		c.Carries = c.carries(p)
		if c.Helper && !c.Carries {
			c.FrameTags, c.PanicTags = nil, nil
			for _, x := range append(append(append([]*Clause{}, c.Requires...), c.Ensures...), c.Asserts...) {
				x.Tags = nil
			}
			for _, l := range c.Loops {
				for _, x := range l.Invs {
					x.Tags = nil
				}
			}
		}
		c.Requires, c.Ensures, c.Asserts = f(c.Requires), f(c.Ensures), f(c.Asserts)
		for _, l := range c.Loops {
			l.Invs = f(l.Invs)
		}
		if c.NoPanic && !inSlice(c.PanicTags, p) {
			c.NoPanic = false
		}
	}
}

// carries: the contract states part of property p itself.
func (c *Contract) carries(p string) bool {
	if has(c.FrameTags, p) || has(c.PanicTags, p) {
		return true
	}
	for _, x := range c.Ensures {
		if has(x.Tags, p) {
			return true
		}
	}
	for _, x := range c.Requires {
		if has(x.Tags, p) {
			return true
		}
	}
	for _, l := range c.Loops {
		for _, x := range l.Invs {
			if has(x.Tags, p) {
				return true
			}
		}
	}
	return false
}

type failure struct {
	name, text, pos, out string
}

type replayFail struct {
	Key   string `json:"key"`
	Case  string `json:"case"`
	Input string `json:"input"`
	What  string `json:"what"`
}

type replayOut struct {
	Cases    int          `json:"cases"`
	Distinct int          `json:"distinct"`
	Bounds   []string     `json:"bounds"`
	Failures []replayFail `json:"failures"`
	Note     string       `json:"note,omitempty"`
}

type propCfg struct {
	Level       string   `json:"level"`
	Assumptions []string `json:"assumptions"`
}

func runCheck(repo, verif, prop, tier string, o *options) int {
	t0 := time.Now()
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	var fails []failure
	var rs []*FnResult
	var skipped []string
	v, err := newVerifier(repo, lemmaOverlay(verif, repo))
	if err == nil {
		v.opts = o
		err = v.loadContracts(filepath.Join(verif, "contracts"))
	}
	if err != nil {
		fails = append(fails, failure{name: "loading the annotated program", out: err.Error()})
	} else {
		v.slice(prop)
		need := map[string]bool{}
		var queue []string
		add := func(k string) {
			if !need[k] {
				need[k] = true
				queue = append(queue, k)
			}
		}
		for _, k := range v.conOrder {
			c := v.contracts[k]
			if c.Kind == "func" && c.Carries {
				add(k)
			}
		}
		for i := 0; i < len(queue); i++ {
			con := v.contracts[queue[i]]
			r := v.verifyFn(con)
			if r.Missing {
				if con.Optional {
					skipped = append(skipped, con.Name)
				} else {
					fails = append(fails, failure{name: con.Name + ": function under contract is missing", text: "the contract no longer has code to be proved against"})
				}
				continue
			}
			if r.Err != "" {
				fails = append(fails, failure{name: con.Name + ": obligations could not be generated", text: r.Err})
			}
			rs = append(rs, r)
			var ks []string
			for u := range r.Inlined {
				if strings.HasPrefix(u, "contract:") {
					if k := "func " + strings.TrimPrefix(u, "contract:"); v.contracts[k] != nil { // not a function type
						ks = append(ks, k)
					}
				}
			}
			sort.Strings(ks)
			for _, u := range ks {
				add(u)
			}
		}
		// frames of functions that others rely on are obligations whatever their tag
		relied := map[string]bool{}
		for _, r := range rs {
			for u := range r.Inlined {
				if strings.HasPrefix(u, "contract:") {
					relied[strings.TrimPrefix(u, "contract:")] = true
				}
			}
		}
		for _, r := range rs {
			var keep []*Obl
			for _, ob := range r.Obls {
				if inSlice(ob.Tags, prop) || relied[r.Con.Name] && ob.Kind == "frame" {
					keep = append(keep, ob)
				}
			}
			r.Obls = keep
		}
		solveDeadline = t0.Add(240 * time.Second)
		if tier == "thorough" {
			solveDeadline = t0.Add(3600 * time.Second)
		}
		v.solve(rs, nil)
	}
	// account
	n, proved := 0, 0
	secs := 0.0
	bySolver := map[string]int{}
	var fns []map[string]interface{}
	trusted := map[string]bool{}
	inl := map[string]bool{}
	for _, r := range rs {
		fn := 0
		for _, ob := range r.Obls {
			n++
			fn++
			secs += ob.Seconds
			if ob.Status == "proved" {
				proved++
				bySolver[ob.Solver]++
			} else {
				fails = append(fails, failure{ob.Name, ob.Text, ob.Pos, ob.Output})
			}
		}
		pos := v.fset.Position(r.Fn.Pos())
		fns = append(fns, map[string]interface{}{"function": r.Con.Name, "source": fmt.Sprintf("%s:%d", strings.TrimPrefix(pos.Filename, repo+"/"), pos.Line), "contract": fmt.Sprintf("contracts/%s:%d", r.Con.File, r.Con.Line), "obligations": fn})
		for u := range r.Used {
			trusted[u] = true
		}
		for u := range r.Assumed {
			trusted["assumed contract: "+u] = true
		}
		for u := range r.Inlined {
			if !strings.HasPrefix(u, "contract:") {
				inl[u] = true
			}
		}
	}
	if err == nil && n == 0 && len(fails) == 0 && len(rs) == 0 {
		skipped = append(skipped, "no function carries a contract for "+prop)
	}
	// executable layer: bounded stand-ins, and the search for a failing input
	ro, rerr := runReplay(repo, verif, prop, tier, seed, len(fails) > 0)
	known, kerr := loadKnown(filepath.Join(verif, "known-findings.txt"), prop)
	if kerr != nil {
		fmt.Println("known-findings:", kerr)
		return 2
	}
	var real []replayFail
	for _, f := range ro.Failures {
		if what, ok := known[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
			continue
		}
		real = append(real, f)
	}
	viol := 0
	code := 0
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0755)
	rp := filepath.Join(verif, "evidence", "replay", prop+".txt")
	os.Remove(rp)
	if len(real) > 0 || len(fails) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", prop)
		for _, f := range real {
			fmt.Fprintf(&b, "FAILING INPUT against the real code\n case: %s\n input: %s\n observed: %s\n rerun: bash %s/run.sh replay %s  (case key %q)\n\n", f.Case, f.Input, f.What, verif, prop, f.Key)
		}
		for _, f := range fails {
			fmt.Fprintf(&b, "FAILED OBLIGATION %s\n clause: %s\n at: %s\n verifier: %s\n\n", f.name, f.text, f.pos, f.out)
		}
		os.WriteFile(rp, []byte(b.String()), 0644)
		code = 1
		viol = 1
		for i, f := range real {
			if i < 5 {
				fmt.Printf("failing input: %s: %s: %s\n", f.Case, clip(f.Input, 300), clip(f.What, 300))
			}
		}
		for i, f := range fails {
			if i < 12 {
				fmt.Printf("failed obligation: %s  [%s]\n", f.name, clip(f.out+f.text, 200))
			}
		}
		suffix := ""
		if len(real) == 0 {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	}
	var cfg propCfg
	if b, e := os.ReadFile(filepath.Join(verif, "props.json")); e == nil {
		m := map[string]propCfg{}
		if e := json.Unmarshal(b, &m); e != nil {
			fmt.Println("props.json:", e)
		}
		cfg = m[prop]
	}
	if cfg.Level == "" {
		cfg.Level = "proof"
	}
	var tb []string
	for t := range trusted {
		tb = append(tb, t)
	}
	sort.Strings(tb)
	tb = append([]string{"gocv (this verifier: go/ssa translation and VC generation)", "go/types and go/ssa (x/tools v0.52.0)", "SMT solvers z3-new, cvc5 1.1.2, z3 4.8.12", "the Go compiler runs the same source the SSA was built from"}, tb...)
	var il []string
	for t := range inl {
		il = append(il, t)
	}
	sort.Strings(il)
	cov := map[string]interface{}{
		"obligations": n, "discharged": proved,
		"checker_cmd":              fmt.Sprintf("bash %s/run.sh check %s %s", verif, prop, tier),
		"trusted_base":             tb,
		"functions_under_contract": fns,
		"functions_inlined":        il,
		"discharged_by":            bySolver,
		"solver_seconds":           round(secs),
		"contracts_without_code":   skipped,
		"bounded": map[string]interface{}{
			"note":  "executable oracles run against the real code: stand-ins with a stated bound, never counted as proved",
			"cases": ro.Cases, "distinct": ro.Distinct, "bounds": ro.Bounds, "status": ro.Note,
		},
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": cfg.Level, "coverage": cov, "wall_s": round(time.Since(t0).Seconds()), "violations": viol,
		"assumptions": append(append([]string{}, cfg.Assumptions...), tb[4:]...)}
	if cfg.Level == "exploration" {
		cov["evaluations"], cov["distinct_nontrivial"] = ro.Cases, ro.Distinct
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	st := ""
	if rerr != nil {
		st = " (executable layer: " + rerr.Error() + ")"
	}
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged (solver %.1fs), %d executable cases, %.1fs%s\n", prop, len(rs), proved, n, secs, ro.Cases, time.Since(t0).Seconds(), st)
	_ = token.NoPos
	return code
}

func clip(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func runReplay(repo, verif, prop, tier string, seed int, search bool) (ro replayOut, err error) {
	bin := os.Getenv("GOCV_REPLAY")
	if bin == "" {
		ro.Note = "no executable layer"
		return
	}
	if _, e := os.Stat(bin); e != nil {
		ro.Note = "executable layer did not build against this tree"
		return ro, fmt.Errorf("%s", ro.Note)
	}
	dir, err := os.MkdirTemp("", "gocvreplay")
	if err != nil {
		return ro, err
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out.json")
	args := []string{"-prop", prop, "-tier", tier, "-seed", strconv.Itoa(seed), "-out", out, "-scratch", dir}
	if search {
		args = append(args, "-search")
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	b, e := cmd.CombinedOutput()
	if e != nil {
		// the driver reports its own failures in the output file; a crash of the process is a failing case
		cur, _ := os.ReadFile(out + ".current")
		if data, e2 := os.ReadFile(out); e2 == nil && json.Unmarshal(data, &ro) == nil {
			return ro, nil
		}
		tail := string(b)
		if len(tail) > 3000 {
			tail = tail[:3000]
		}
		if len(cur) > 0 {
			ro.Failures = append(ro.Failures, replayFail{Key: "crash", Case: strings.SplitN(string(cur), "\n", 2)[0], Input: string(cur), What: "the process died: " + e.Error() + "\n" + tail})
			ro.Cases = 1
			return ro, nil
		}
		ro.Note = "executable layer failed: " + e.Error() + " " + clip(tail, 500)
		return ro, fmt.Errorf("%s", ro.Note)
	}
	data, err := os.ReadFile(out)
	if err != nil {
		return ro, err
	}
	err = json.Unmarshal(data, &ro)
	if ro.Note == "" {
		ro.Note = "ran"
	}
	return ro, err
}

// loadKnown reads "finding: property=<id> key=<key> <what>" lines; "fixed:" lines suppress nothing.
func loadKnown(file, prop string) (map[string]string, error) {
	out := map[string]string{}
	b, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "key=") {
			return nil, fmt.Errorf("bad line: %s", l)
		}
		if f[1] == "property="+prop {
			out[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return out, nil
}
