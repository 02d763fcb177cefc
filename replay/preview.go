package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/qfs"
)

func init() { props["C25"] = c25 }

func c25(t *T) {
	n := t.N(1500, 15000)
	t.Bound("%d random datasets with JSON, CSV and CBOR bodies of up to 250 entries and readmes around 997 bytes, read in pieces", n)
	ctx := context.Background()
	if _, err := preview.Create(ctx, nil); err == nil {
		t.Do("nil", "no dataset", func() string { return "no error" })
	}
	for i := 0; i < n; i++ {
		ds := randDataset(t.rand, 0.3)
		ds.Body, ds.BodyBytes = nil, nil
		ds.Structure, ds.Readme = nil, nil
		rows := tableRows(t.rand, []int{0, 1, 3, 99, 100, 101, 102, 250}[t.rand.Intn(8)])
		var stored []byte
		withBody, withReadme := t.rand.Intn(4) > 0, t.rand.Intn(3) > 0
		hasStructure := t.rand.Intn(8) > 0
		object := false
		if withBody {
			st := &dataset.Structure{Format: []string{"json", "cbor", "csv"}[t.rand.Intn(3)], Schema: tabularSchema}
			if st.Format == "csv" {
				st.FormatConfig = map[string]interface{}{"headerRow": t.rand.Intn(2) == 0}
			}
			if t.rand.Intn(4) == 0 {
				st.Compression = []string{"gzip", "zst"}[t.rand.Intn(2)]
			}
			b, err := writeBody(st, rows)
			if err != nil {
				continue
			}
			stored = b
			if hasStructure {
				ds.Structure = st
			}
			_ = object
			ds.SetBodyFile(qfs.NewMemfileReader("/b/body."+st.Format, &chunkReader{data: stored, r: t.rand, max: 1 + t.rand.Intn(3000)}))
		}
		text := strings.Repeat("r\u00e9", []int{0, 1, 331, 332, 333, 1000}[t.rand.Intn(6)]) + strings.Repeat("x", t.rand.Intn(4))
		if withReadme {
			ds.Readme = &dataset.Readme{Format: "md", Text: "old"}
			ds.Readme.SetScriptFile(qfs.NewMemfileReader("/r/readme.md", &chunkReader{data: []byte(text), r: t.rand, max: 1 + t.rand.Intn(1200)}))
		}
		empty := ds.IsEmpty()
		input := fmt.Sprintf("%d rows, body %v, structure %v, readme %v of %d bytes, %s", len(rows), withBody, dd(ds.Structure), withReadme, len(text), dd(ds.Meta))
		t.Do("Create", input, func() string {
			bad := empty || withBody && !hasStructure
			rest := func() string {
				c := *ds
				c.Body = nil
				c.SetBodyFile(nil)
				s := ""
				if c.Readme != nil {
					r := *c.Readme
					r.Text = ""
					r.SetScriptFile(nil)
					c.Readme = &r
				}
				return s + dd(&c)
			}
			before := rest()
			got, err := preview.Create(ctx, ds)
			if (err != nil) != bad {
				return fmt.Sprintf("error %v", err)
			}
			if err != nil {
				return ""
			}
			if rest() != before || got != ds {
				return "something else changed"
			}
			if withReadme {
				want := text
				if len(want) >= 997 {
					want = want[:997] + "..."
				}
				if ds.Readme.Text != want {
					return fmt.Sprintf("the readme text has %d bytes, of %d", len(ds.Readme.Text), len(text))
				}
				if p, s := ds.Readme.ScriptFile().FullPath(), readFile(ds.Readme.ScriptFile()); s != text || p != "/r/readme.md" {
					return fmt.Sprintf("the readme now reads as %d of %d bytes from %s", len(s), len(text), p)
				}
			}
			if withBody {
				raw, ok := ds.Body.(json.RawMessage)
				if !ok {
					return fmt.Sprintf("the body is a %T", ds.Body)
				}
				var have []interface{}
				if err := json.Unmarshal(raw, &have); err != nil {
					return "the body is no JSON: " + err.Error()
				}
				want := rows
				if len(want) > 100 {
					want = want[:100]
				}
				if len(have) != len(want) {
					return fmt.Sprintf("%d entries of %d", len(have), len(rows))
				}
				for j := range want {
					var w interface{}
					b, _ := json.Marshal(want[j])
					json.Unmarshal(b, &w)
					if dd(w) != dd(have[j]) {
						return fmt.Sprintf("entry %d is %s, was %s", j, dd(have[j]), dd(w))
					}
				}
				b, err := ioutil.ReadAll(ds.BodyFile())
				if err != nil || string(b) != string(stored) || ds.BodyFile().FullPath() == "" {
					return fmt.Sprintf("the body now reads as %d of %d bytes, error %v", len(b), len(stored), err)
				}
			}
			return ""
		})
	}
}
