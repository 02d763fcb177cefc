package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/qfs"
)

func init() { props["C21"] = c21 }

// colRef is what the statistics of a column are, by counting
type colRef struct {
	kind   string
	nums   []float64
	texts  []string
	bools  []bool
	nulls  int
	keys   map[string]*colRef
	items  []*colRef
	hasKey bool
	key    string
}

func kindOf(v interface{}) string {
	switch v.(type) {
	case int, int32, int64, float32, float64:
		return "numeric"
	case string:
		return "string"
	case bool:
		return "boolean"
	case []interface{}:
		return "array"
	case map[string]interface{}:
		return "object"
	}
	return "null"
}

func (c *colRef) add(v interface{}) {
	if c.kind == "" {
		c.kind = kindOf(v)
		c.keys = map[string]*colRef{}
	}
	if kindOf(v) != c.kind {
		return
	}
	switch x := v.(type) {
	case int:
		c.nums = append(c.nums, float64(x))
	case int32:
		c.nums = append(c.nums, float64(x))
	case int64:
		c.nums = append(c.nums, float64(x))
	case float32:
		c.nums = append(c.nums, float64(x))
	case float64:
		c.nums = append(c.nums, x)
	case string:
		c.texts = append(c.texts, x)
	case bool:
		c.bools = append(c.bools, x)
	case nil:
		c.nulls++
	case []interface{}:
		for i, e := range x {
			if i == len(c.items) {
				c.items = append(c.items, &colRef{})
			}
			c.items[i].add(e)
		}
	case map[string]interface{}:
		for k, e := range x {
			if c.keys[k] == nil {
				c.keys[k] = &colRef{hasKey: true, key: k}
			}
			c.keys[k].add(e)
		}
	}
}

func (c *colRef) check(m map[string]interface{}, top bool) string {
	if top {
		if m["type"] != c.kind {
			return fmt.Sprintf("type %v, want %v", m["type"], c.kind)
		}
		if c.hasKey && m["key"] != c.key {
			return fmt.Sprintf("key %v, want %v", m["key"], c.key)
		}
		if _, ok := m["key"]; ok && !c.hasKey {
			return "a key for a column by position"
		}
	}
	num := func(k string, want float64) string {
		got, ok := m[k].(float64)
		if i, isInt := m[k].(int); isInt {
			got, ok = float64(i), true
		}
		if !ok || !near(got, want) {
			return fmt.Sprintf("%s %v, want %v", k, m[k], want)
		}
		return ""
	}
	for _, k := range []string{"min", "max", "mean", "minLength", "maxLength", "trueCount", "median", "histogram", "frequencies"} {
		_, has := m[k]
		want := map[string][]string{"numeric": {"min", "max", "mean", "median", "histogram"}, "string": {"minLength", "maxLength", "frequencies"}, "boolean": {"trueCount"}}
		ok := false
		for _, w := range want[c.kind] {
			ok = ok || w == k
		}
		if has != ok && c.kind != "object" {
			return fmt.Sprintf("%s: %s present %v", c.kind, k, has)
		}
	}
	switch c.kind {
	case "numeric":
		lo, hi, sum := math.Inf(1), math.Inf(-1), 0.0
		set := map[float64]float64{}
		for _, v := range c.nums {
			lo, hi, sum = math.Min(lo, v), math.Max(hi, v), sum+v
			set[v]++
		}
		for _, x := range []string{num("count", float64(len(c.nums))), num("min", lo), num("max", hi), num("mean", sum/float64(len(c.nums)))} {
			if x != "" {
				return x
			}
		}
		if med, ok := m["median"].(float64); !ok || med < lo-1e-6*(math.Abs(lo)+1) || med > hi+1e-6*(math.Abs(hi)+1) {
			return fmt.Sprintf("median %v outside %v..%v", m["median"], lo, hi)
		}
		h, _ := m["histogram"].(map[string][]float64)
		bins, freq := h["bins"], h["frequencies"]
		if len(bins) != len(freq)+1 || len(freq) == 0 {
			return fmt.Sprintf("histogram %v", h)
		}
		total := 0.0
		for i, f := range freq {
			total += f
			if !(f > 0 && bins[i] < bins[i+1]) {
				return fmt.Sprintf("histogram %v", h)
			}
			if len(set) <= int(dsstats.HistogramCentroidCount) && set[bins[i]] != f {
				return fmt.Sprintf("histogram: frequency %v at %v, want %v", f, bins[i], set[bins[i]])
			}
		}
		if total != float64(len(c.nums)) {
			return fmt.Sprintf("histogram counts %v values, want %d", total, len(c.nums))
		}
	case "string":
		lo, hi := math.MaxInt64, 0
		set := map[string]int{}
		long := 0
		for _, s := range c.texts {
			if len(s) < lo {
				lo = len(s)
			}
			if len(s) > hi {
				hi = len(s)
			}
			if set[s] == 0 && len(s) > 40 {
				long++
			}
			set[s]++
		}
		for _, x := range []string{num("count", float64(len(c.texts))), num("minLength", float64(lo)), num("maxLength", float64(hi))} {
			if x != "" {
				return x
			}
		}
		if len(set) > dsstats.StopFreqCountThreshold {
			return ""
		}
		if u, _ := m["unique"].(int); math.Abs(float64(u-len(set))) > 1+float64(len(set))/20 {
			return fmt.Sprintf("unique %v, want about %d", m["unique"], len(set))
		}
		fr, _ := m["frequencies"].(map[string]int)
		if len(fr) != len(set) {
			return fmt.Sprintf("%d frequencies for %d texts", len(fr), len(set))
		}
		for k, n := range set {
			if len(k) <= 40 {
				if fr[k] != n {
					return fmt.Sprintf("frequency of %q is %d, want %d", k, fr[k], n)
				}
				continue
			}
			found := 0
			for f, fn := range fr {
				if strings.HasPrefix(f, k[:40]+"... ") && strings.Contains(f, fmt.Sprintf(" %d chars", len(k))) && fn == n {
					found++
				}
			}
			if found == 0 {
				return fmt.Sprintf("no frequency %d for the text of %d bytes", n, len(k))
			}
		}
	case "boolean":
		t := 0
		for _, b := range c.bools {
			if b {
				t++
			}
		}
		for _, x := range []string{num("count", float64(len(c.bools))), num("trueCount", float64(t)), num("falseCount", float64(len(c.bools)-t))} {
			if x != "" {
				return x
			}
		}
	case "null":
		return num("count", float64(c.nulls))
	case "array":
		vs, _ := m["values"].([]map[string]interface{})
		if len(vs) != len(c.items) {
			return fmt.Sprintf("%d values, want %d", len(vs), len(c.items))
		}
		for i, it := range c.items {
			if x := it.check(vs[i], false); x != "" {
				return fmt.Sprintf("position %d: %s", i, x)
			}
		}
	case "object":
		for k, it := range c.keys {
			if k == "type" || k == "key" && c.hasKey {
				continue
			}
			vs, ok := m[k].(map[string]interface{})
			if !ok {
				return fmt.Sprintf("key %q: %v", k, m[k])
			}
			if x := it.check(vs, false); x != "" {
				return fmt.Sprintf("key %q: %s", k, x)
			}
		}
	}
	return ""
}

func statsAre(got []map[string]interface{}, rows []interface{}) string {
	ref := &colRef{}
	for _, v := range rows {
		ref.add(v)
	}
	var cols []*colRef
	switch ref.kind {
	case "":
	case "array":
		cols = ref.items
	case "object":
		var ks []string
		for k := range ref.keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			cols = append(cols, ref.keys[k])
		}
	default:
		cols = []*colRef{ref}
	}
	if len(got) != len(cols) {
		return fmt.Sprintf("%d statistics for %d columns", len(got), len(cols))
	}
	for i, c := range cols {
		if x := c.check(got[i], true); x != "" {
			return fmt.Sprintf("column %d: %s", i, x)
		}
	}
	return ""
}

func c21(t *T) {
	r := t.rand
	var value func(kind, depth int) interface{}
	value = func(kind, depth int) interface{} {
		if r.Intn(10) == 0 {
			kind = r.Intn(10)
		}
		switch kind {
		case 0:
			return r.Intn(7) - 3
		case 1:
			return float64(r.Intn(2000))/8 - 100
		case 2:
			return int64(r.Intn(100))
		case 3:
			return float32(r.Intn(9)) / 2
		case 4:
			return []string{"", "a", "bb", "é", strings.Repeat("x", 40), strings.Repeat("x", 41), strings.Repeat("x", 42), strings.Repeat("y", 60)}[r.Intn(8)]
		case 5:
			return rstr(r)
		case 6:
			return r.Intn(3) == 0
		case 7:
			return nil
		case 8:
			if depth == 0 {
				return int32(r.Intn(5))
			}
			out := []interface{}{}
			for i := r.Intn(4); i > 0; i-- {
				out = append(out, value(r.Intn(7), depth-1))
			}
			return out
		}
		if depth == 0 {
			return r.NormFloat64()
		}
		out := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			out[[]string{"a", "b", "c", "count2"}[r.Intn(4)]] = value(r.Intn(7), depth-1)
		}
		return out
	}
	rows := func(depth int) []interface{} {
		n := r.Intn(12)
		if r.Intn(8) == 0 {
			n = r.Intn(300)
		}
		var out []interface{}
		shape, w := r.Intn(3), 1+r.Intn(5)
		if r.Intn(10) == 0 {
			w = 26
		}
		kinds := make([]int, w)
		for i := range kinds {
			kinds[i] = r.Intn(9)
		}
		for i := 0; i < n; i++ {
			switch shape {
			case 0:
				var row []interface{}
				ww := w
				if r.Intn(5) == 0 {
					ww = r.Intn(w + 2)
				}
				for j := 0; j < ww; j++ {
					row = append(row, value(kinds[j%w], depth))
				}
				if row == nil {
					row = []interface{}{}
				}
				out = append(out, row)
			case 1:
				row := map[string]interface{}{}
				for j := 0; j < w; j++ {
					if r.Intn(5) > 0 {
						row[string(rune('z'-j))] = value(kinds[j], depth)
					}
				}
				out = append(out, row)
			default:
				out = append(out, value(kinds[0], depth))
			}
		}
		return out
	}
	t.Bound("bodies of up to 300 rows of up to 26 columns: lists, objects and plain values, with missing cells, values of other kinds, long texts, and one level of nesting")
	for i := 0; i < t.N(3000, 40000); i++ {
		depth := r.Intn(2)
		vals := rows(depth)
		var ents []dsio.Entry
		for j, v := range vals {
			ents = append(ents, dsio.Entry{Index: j, Value: v})
		}
		failAt := -1
		if r.Intn(4) == 0 {
			failAt = r.Intn(len(ents) + 1)
		}
		t.Do("stats", clip(fmt.Sprintf("fails at %d %s", failAt, show(vals))), func() string {
			fr := &fakeReader{st: jsonArray(), ents: ents}
			if failAt >= 0 {
				fr.errs = map[int]error{failAt: errors.New("reader failed")}
			}
			before := dd(vals)
			st, err := dsstats.CalculateFromEntryReader(fr)
			if dd(vals) != before {
				return "calculating changed the rows"
			}
			if failAt >= 0 {
				if err == nil || st != nil {
					return "a failing reader was taken for the end of the body"
				}
				return ""
			}
			if err != nil {
				return err.Error()
			}
			if st.Qri != dataset.KindStats.String() {
				return "kind " + st.Qri
			}
			ms, _ := st.Stats.([]map[string]interface{})
			return statsAre(ms, vals)
		})
		t.Do("accumulator", clip(show(vals)), func() string {
			acc := dsstats.NewAccumulator(jsonArray())
			for _, e := range ents {
				if err := acc.WriteEntry(e); err != nil {
					return err.Error()
				}
			}
			if err := acc.Close(); err != nil {
				return err.Error()
			}
			return statsAre(dsstats.ToMap(acc), vals)
		})
	}
	t.Bound("JSON bodies of datasets")
	for i := 0; i < t.N(150, 1500); i++ {
		vals := rows(0)
		t.Do("calculate", clip(show(vals)), func() string {
			st := jsonArray()
			data, err := writeBody(st, vals)
			if err != nil {
				return "skip"
			}
			ds := &dataset.Dataset{Structure: st}
			ds.SetBodyFile(qfs.NewMemfileBytes("body.json", data))
			got, err := dsstats.Calculate(ds)
			if err != nil {
				return err.Error()
			}
			rd, err := dsio.NewEntryReader(st, qfs.NewMemfileBytes("body.json", data))
			if err != nil {
				return err.Error()
			}
			read, err := entriesOf(rd)
			if err != nil {
				return err.Error()
			}
			var back []interface{}
			for _, e := range read {
				back = append(back, e)
			}
			ms, _ := got.Stats.([]map[string]interface{})
			return statsAre(ms, back)
		})
	}
	t.Do("calculate", "no body", func() string {
		if _, err := dsstats.Calculate(&dataset.Dataset{Structure: jsonArray()}); err == nil {
			return "no error without a body"
		}
		return ""
	})
	t.Do("calculate", "no structure", func() string {
		ds := &dataset.Dataset{}
		ds.SetBodyFile(qfs.NewMemfileBytes("b", []byte("[]")))
		if _, err := dsstats.Calculate(ds); err == nil {
			return "no error without a structure"
		}
		return ""
	})
}

func jsonArray() *dataset.Structure {
	return &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}}
}
