package main

import (
	"bytes"
	"context"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/validate"
)

func init() { props["C24"] = c24 }

func validName(s string) bool {
	if s == "" || len(s) > 144 {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !(letter || i > 0 && (c >= '0' && c <= '9' || c == '_')) {
			return false
		}
	}
	return true
}

func verdict(what string, got error, want bool) string {
	if (got == nil) != want {
		return fmt.Sprintf("%s: accepted %v, want %v (%v)", what, got == nil, want, got)
	}
	return ""
}

func c24(t *T) {
	r := t.rand
	known := map[string]bool{"csv": true, "json": true, "xml": true, "xlsx": true, "cbor": true, "ndjson": true, "jsonl": true}
	t.Bound("names over a small alphabet up to length 3 and random ones around the length limit")
	names := []string{"", "a", "A1_", "1a", "_a", "a b", "a-b", "é", "aé", "a\n", strings.Repeat("a", 143), strings.Repeat("a", 144), strings.Repeat("a", 145), "a" + strings.Repeat("1", 144), "a.", "Z", "z9", "a$"}
	al := "aZ0_ -é\n"
	for _, a := range al {
		for _, b := range al {
			names = append(names, string(a)+string(b))
			for _, c := range al {
				names = append(names, string(a)+string(b)+string(c))
			}
		}
	}
	for _, n := range names {
		n := n
		t.Do("name", clip(fmt.Sprintf("%q", n)), func() string { return verdict("ValidName", validate.ValidName(n), validName(n)) })
	}

	t.Bound("every format name with and without schema, titles around the limit, with every part absent or present")
	titles := []string{"", "t", strings.Repeat("t", 99), strings.Repeat("t", 100), strings.Repeat("t", 101), strings.Repeat("é", 50), strings.Repeat("é", 51), strings.Repeat("x", 500)}
	formats := []string{"", "csv", "json", "cbor", "xlsx", "xml", "ndjson", "jsonl", ".csv", ".json", ".cbor", ".xlsx", ".xml", ".ndjson", ".jsonl", "CSV", "foo", "csv ", ".", "..csv", "unknown"}
	schemas := []map[string]interface{}{nil, {}, {"type": "array"}, {"type": "object"}, {"type": "string"}}
	sts := []*dataset.Structure{nil}
	for _, f := range formats {
		for _, s := range schemas {
			sts = append(sts, &dataset.Structure{Format: f, Schema: s})
		}
	}
	stOK := func(s *dataset.Structure) bool {
		return s == nil || known[strings.TrimPrefix(s.Format, ".")] && s.Schema != nil
	}
	for _, s := range sts {
		s := s
		t.Do("structure", show(s), func() string { return verdict("Structure", validate.Structure(s), stOK(s)) })
	}
	for _, sc := range schemas {
		sc := sc
		t.Do("schema", show(sc), func() string { return verdict("Schema", validate.Schema(sc), sc != nil) })
	}
	cms := []*dataset.Commit{nil}
	for _, ti := range titles {
		cms = append(cms, &dataset.Commit{Title: ti}, &dataset.Commit{Title: ti, Message: strings.Repeat("m", 300)})
	}
	cmOK := func(c *dataset.Commit) bool { return c == nil || len(c.Title) <= 100 }
	for _, c := range cms {
		c := c
		t.Do("commit", clip(show(c)), func() string { return verdict("Commit", validate.Commit(c), cmOK(c)) })
	}
	t.Do("dataset", "nil", func() string { return verdict("Dataset", validate.Dataset(nil), true) })
	for _, c := range cms {
		for _, s := range sts {
			ds := &dataset.Dataset{Commit: c, Structure: s}
			ok := c != nil && cmOK(c) && stOK(s)
			t.Do("dataset", clip(show(ds)), func() string { return verdict("Dataset", validate.Dataset(ds), ok) })
		}
	}
	for i := 0; i < t.N(300, 3000); i++ {
		ds := randDataset(r, 0.5)
		want := ds.Commit != nil && cmOK(ds.Commit) && stOK(ds.Structure)
		before := dd(ds)
		t.Do("dataset", clip(show(ds)), func() string {
			if x := verdict("Dataset", validate.Dataset(ds), want); x != "" {
				return x
			}
			if dd(ds) != before {
				return "validating changed the dataset"
			}
			return ""
		})
	}

	t.Bound("CSV text of up to 12 records, one or none of another length, with quotes, blank lines and missing line ends")
	for i := 0; i < t.N(1500, 30000); i++ {
		n, w := 1+r.Intn(12), 1+r.Intn(4)
		odd := -1
		if r.Intn(2) == 0 {
			odd = r.Intn(n)
		}
		if r.Intn(8) == 0 {
			n = 0
		}
		var b strings.Builder
		for k := 0; k < n; k++ {
			m := w
			if k == odd {
				m = 1 + r.Intn(5)
			}
			for c := 0; c < m; c++ {
				if c > 0 {
					b.WriteString(",")
				}
				b.WriteString([]string{"a", " b", "\"q,\"", "1", "\"x\ny\"", "\"say \"\"\"", "é"}[r.Intn(7)])
			}
			if r.Intn(30) == 0 {
				b.WriteString([]string{"\"", ",\"open", " \"q\"z"}[r.Intn(3)])
			}
			if k < n-1 || r.Intn(2) == 0 {
				b.WriteString([]string{"\n", "\r\n", "\n\n"}[r.Intn(3)])
			}
		}
		text := b.String()
		z := csv.NewReader(strings.NewReader(text))
		z.FieldsPerRecord, z.TrimLeadingSpace = -1, true
		recs, err := z.ReadAll()
		want := err == nil && len(recs) > 0
		for _, rec := range recs {
			want = want && len(rec) == len(recs[0])
		}
		t.Do("csv", clip(fmt.Sprintf("%q", text)), func() string {
			return verdict("CheckCsvRowLengths", validate.CheckCsvRowLengths(strings.NewReader(text)), want)
		})
	}
	t.Do("csv", "source fails after two rows", func() string {
		return verdict("CheckCsvRowLengths", validate.CheckCsvRowLengths(io.MultiReader(strings.NewReader("a,b\nc,d\n"), failing{})), false)
	})

	t.Bound("array and object bodies of 0 to 12001 entries validated against column types, wrong values anywhere and at batch borders")
	rowSchema := map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{
		map[string]interface{}{"type": "integer"}, map[string]interface{}{"type": "string"}}}}
	objSchema := map[string]interface{}{"type": "object", "additionalProperties": map[string]interface{}{"type": "integer"}}
	sizes := []int{0, 1, 2, 3, 17, 4999, 5000, 5001, 9999, 10000, 10001, 12001}
	for i := 0; i < t.N(30, 200); i++ {
		n := sizes[i%len(sizes)]
		if i >= len(sizes) && i%3 == 0 {
			n = r.Intn(40)
		}
		bad := map[int]int{}
		for _, p := range []int{0, 1, 4998, 4999, 5000, 5001, 9999, 10000, 10001, n - 1, n - 2, n / 2, r.Intn(n + 1), r.Intn(n + 1)} {
			if p >= 0 && p < n && r.Intn(3) != 0 {
				bad[p] = 1 + r.Intn(3)
			}
		}
		ents := make([]dsio.Entry, n)
		want := []string{}
		for k := range ents {
			row := []interface{}{int64(k), fmt.Sprintf("r%d", k)}
			if bad[k]&1 != 0 {
				row[0] = "no number"
				want = append(want, fmt.Sprintf("/%d/0", k))
			}
			if bad[k]&2 != 0 {
				row[1] = int64(-k)
				want = append(want, fmt.Sprintf("/%d/1", k))
			}
			ents[k] = dsio.Entry{Index: k, Value: row}
		}
		rd := &fakeReader{st: &dataset.Structure{Format: "json", Schema: rowSchema}, ents: ents}
		t.Do("rows", fmt.Sprintf("%d rows, wrong values in rows %v", n, bad), func() string {
			errs, err := validate.EntryReader(rd)
			if err != nil {
				return "error " + err.Error()
			}
			got := []string{}
			for _, e := range errs {
				got = append(got, e.PropertyPath)
			}
			if d := multiset(got, want); d != "" {
				return "error paths " + d
			}
			return ""
		})
	}
	for i := 0; i < t.N(8, 60); i++ {
		n := []int{0, 1, 5, 5000, 5001, 10001}[r.Intn(6)]
		ents := make([]dsio.Entry, n)
		want := []string{}
		for k := range ents {
			ents[k] = dsio.Entry{Index: k, Key: fmt.Sprintf("%d", k), Value: int64(k)}
			if k == n-1 || r.Intn(2000) == 0 || k == 4999 || k == 5000 {
				ents[k].Value = "x"
				want = append(want, fmt.Sprintf("/%d", k))
			}
		}
		rd := &fakeReader{st: &dataset.Structure{Format: "json", Schema: objSchema}, ents: ents}
		t.Do("object", fmt.Sprintf("%d keys, wrong values at %v", n, want), func() string {
			errs, err := validate.EntryReader(rd)
			if err != nil {
				return "error " + err.Error()
			}
			got := []string{}
			for _, e := range errs {
				got = append(got, e.PropertyPath)
			}
			if d := multiset(got, want); d != "" {
				return "error paths " + d
			}
			return ""
		})
	}
	// against the schema validator itself, for bodies of one batch and any schema
	for i := 0; i < t.N(150, 2000); i++ {
		st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": []interface{}{"string", "object", "array", "integer"}[r.Intn(4)]}, "minItems": float64(r.Intn(3))}}
		if r.Intn(3) == 0 {
			st.Schema["items"] = map[string]interface{}{"type": "object", "required": []interface{}{"a"}, "properties": map[string]interface{}{"b": map[string]interface{}{"type": "string"}}}
		}
		n := 1 + r.Intn(6)
		doc := []interface{}{}
		ents := make([]dsio.Entry, n)
		for k := range ents {
			v := jsonValue(r, 2)
			if r.Intn(3) == 0 {
				v = map[string]interface{}{"a": 1.0, "b": jsonValue(r, 0)}
			}
			ents[k] = dsio.Entry{Index: k, Value: v}
			doc = append(doc, v)
		}
		t.Do("schema", clip(show(st.Schema)+" "+show(doc)), func() string {
			sch, err := st.JSONSchema()
			if err != nil {
				return ""
			}
			data, err := json.Marshal(doc)
			if err != nil {
				return ""
			}
			var d interface{}
			json.Unmarshal(data, &d)
			want, got := []string{}, []string{}
			for _, e := range *sch.Validate(context.Background(), d).Errs {
				want = append(want, e.PropertyPath+" "+e.Message)
			}
			errs, err := validate.EntryReader(&fakeReader{st: st, ents: ents})
			if err != nil {
				return "error " + err.Error()
			}
			for _, e := range errs {
				got = append(got, e.PropertyPath+" "+e.Message)
			}
			if x := multiset(got, want); x != "" {
				return "errors " + x
			}
			return ""
		})
	}
	t.Bound("readers that fail at an entry, at and around the batch borders; bodies cut off")
	for _, n := range []int{0, 1, 3, 4999, 5000, 5001} {
		ents := make([]dsio.Entry, n)
		for k := range ents {
			ents[k] = dsio.Entry{Index: k, Value: []interface{}{int64(k), "x"}}
		}
		rd := &fakeReader{st: &dataset.Structure{Format: "json", Schema: rowSchema}, ents: ents, errs: map[int]error{n: errors.New("broken")}}
		t.Do("fails", fmt.Sprintf("reader fails after %d rows", n), func() string {
			return verdict("EntryReader", second(validate.EntryReader(rd)), false)
		})
	}
	t.Do("fails", "cut off JSON body", func() string {
		st := &dataset.Structure{Format: "json", Schema: rowSchema}
		rd, err := dsio.NewEntryReader(st, bytes.NewReader([]byte(`[[1,"a"],[2,"b`)))
		if err != nil {
			return err.Error()
		}
		return verdict("EntryReader", second(validate.EntryReader(rd)), false)
	})
}

func second(_ interface{}, err error) error { return err }

func multiset(got, want []string) string {
	m := map[string]int{}
	for _, g := range got {
		m[g]++
	}
	for _, w := range want {
		m[w]--
	}
	for k, n := range m {
		if n > 0 {
			return fmt.Sprintf("has %q too often (%d got, %d wanted)", k, len(got), len(want))
		}
		if n < 0 {
			return fmt.Sprintf("lacks %q (%d got, %d wanted)", k, len(got), len(want))
		}
	}
	return ""
}
