package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
)

func init() { props["C20"] = c20 }

func squeeze(body []byte, comp string) []byte {
	if comp == "" {
		return body
	}
	b := &bytes.Buffer{}
	w, err := compression.Compressor(comp, b)
	if err != nil {
		panic(err)
	}
	w.Write(body)
	w.Close()
	return b.Bytes()
}

func couldBeName(c string) bool {
	c = strings.TrimSpace(c)
	if _, err := strconv.ParseInt(c, 10, 64); err == nil {
		return false
	}
	if _, err := strconv.ParseFloat(c, 64); err == nil {
		return false
	}
	return c != "" && c != "true" && c != "false"
}

func c20(t *T) {
	n := t.N(3000, 40000)
	t.Bound("%d random file names of up to four parts; %d random JSON, NDJSON, CBOR, CSV and XLSX bodies, plain and compressed, read in pieces, with partly set structures", n, n)
	exts := []string{".json", ".csv", ".cbor", ".xlsx", ".xml", ".jsonl", ".ndjson", ".gz", ".gzip", ".zst", ".zstd", ".zip", ".txt", "", ".", ".JSON", "a", "/b", "json"}
	fmts := map[string]dataset.DataFormat{".json": dataset.JSONDataFormat, ".csv": dataset.CSVDataFormat, ".cbor": dataset.CBORDataFormat, ".xlsx": dataset.XLSXDataFormat,
		".xml": dataset.XMLDataFormat, ".jsonl": dataset.NDJSONDataFormat, ".ndjson": dataset.NDJSONDataFormat}
	comps := map[string]compression.Format{".gz": compression.FmtGZip, ".gzip": compression.FmtGZip, ".zst": compression.FmtZStandard, ".zstd": compression.FmtZStandard}
	for i := 0; i < n; i++ {
		name := "body"
		for j := t.rand.Intn(4); j > 0; j-- {
			name += exts[t.rand.Intn(len(exts))]
		}
		t.Do("FormatFromFilename", name, func() string {
			ext, comp := filepath.Ext(name), compression.FmtNone
			if c, ok := comps[ext]; ok {
				comp, ext = c, filepath.Ext(name[:len(name)-len(ext)])
			}
			want, known := fmts[ext]
			df, cf, err := detect.FormatFromFilename(name)
			if (err == nil) != known || known && (df != want || cf != comp) {
				return fmt.Sprintf("gives %v %q %v", df, cf, err)
			}
			return ""
		})
	}
	for i := 0; i < n; i++ {
		ext := []string{".json", ".ndjson", ".cbor", ".csv", ".xlsx", ".jsonl"}[t.rand.Intn(6)]
		comp := []string{"", "", ".gz", ".zst"}[t.rand.Intn(4)]
		var body []byte
		var schema map[string]interface{}
		var conf map[string]interface{}
		schemaOK := true
		isArr := t.rand.Intn(2) == 0
		switch ext {
		case ".json":
			ws := ""
			for j := []int{0, 0, 2, 99, 100, 101, 199, 200, 201, 350, 1100, 2500}[t.rand.Intn(12)]; j > 0; j-- {
				ws += string(" \t\n\r"[t.rand.Intn(4)])
			}
			switch t.rand.Intn(6) {
			case 0:
				schemaOK = false
				body = []byte(ws + []string{"", "4", "\"a\"", "null", "x[", "]", "\x00{", "-"}[t.rand.Intn(8)])
			default:
				s := "{\"a\":[1]}"
				if isArr {
					s = "[{\"a\":1}]"
				}
				body = []byte(ws + s + strings.Repeat(" ", []int{0, 3, 200, 5000, 9000}[t.rand.Intn(5)]))
			}
		case ".ndjson", ".jsonl", ".xlsx":
			body, isArr = randBytes(t.rand, t.rand.Intn(300)), true
		case ".cbor":
			first := byte(t.rand.Intn(256))
			if t.rand.Intn(2) == 0 {
				first = byte(0x80 + t.rand.Intn(64))
			}
			body = append([]byte{first}, randBytes(t.rand, t.rand.Intn(300))...)
			isArr = first >= 0x80 && first < 0xa0
			schemaOK = first >= 0x80 && first < 0xc0
		case ".csv":
			cells := []string{"a", "name", "4", "4.5", "", "true", "false", "true ", " x", "nan", "inf", "1e3", "-", "0x10", "null", "{}", "9999999999999999999999", "tRUE", "é"}
			var lines []string
			var rows [][]string
			w := 1 + t.rand.Intn(4)
			for j := 1 + t.rand.Intn(6); j > 0; j-- {
				var row, raw []string
				k := w
				if len(rows) > 0 && t.rand.Intn(6) == 0 {
					k = 1 + t.rand.Intn(5)
				}
				for ; k > 0; k-- {
					c := cells[t.rand.Intn(len(cells))]
					row, raw = append(row, c), append(raw, c)
					if t.rand.Intn(8) == 0 {
						row[len(row)-1], raw[len(raw)-1] = " ", "\" \""
					}
				}
				if len(row) == 1 && strings.TrimSpace(row[0]) == "" {
					row[0], raw[0] = "z", "z"
				}
				rows = append(rows, row)
				lines = append(lines, strings.Join(raw, ","))
			}
			body = []byte(strings.Join(lines, "\n") + "\n")
			conf = map[string]interface{}{"lazyQuotes": true}
			names := true
			for _, c := range rows[0] {
				names = names && couldBeName(c)
			}
			if names {
				conf["headerRow"] = true
			}
			for _, r := range rows {
				if len(r) != len(rows[0]) {
					conf["variadicFields"] = true
				}
			}
		}
		stored := squeeze(body, strings.TrimPrefix(comp, "."))
		name := "b" + ext + comp
		var st *dataset.Structure
		if t.rand.Intn(3) > 0 {
			st = &dataset.Structure{}
			if t.rand.Intn(2) == 0 {
				st.Format = []string{"json", "csv", "cbor", "xlsx", "ndjson"}[t.rand.Intn(5)]
			}
			if t.rand.Intn(3) == 0 {
				st.Compression = []string{"gzip", "zst"}[t.rand.Intn(2)]
			}
			if t.rand.Intn(3) == 0 {
				st.FormatConfig = map[string]interface{}{"x": 1.0}
			}
			if t.rand.Intn(3) == 0 {
				st.Schema = map[string]interface{}{"type": "array", "items": 4.0}
			}
			if t.rand.Intn(3) == 0 {
				st.Length, st.Path, st.Entries = 7, "/p", 3
			}
		}
		input := fmt.Sprintf("%s holding %q, structure %s", name, clip(string(body)), dd(st))
		t.Do("Structure", input, func() string {
			ds := &dataset.Dataset{Name: "n"}
			var before dataset.Structure
			if st != nil {
				before = *st
				ds.Structure = st
			}
			settled := st != nil && st.Format != "" && st.Schema != nil && !((st.Format == "csv" || st.Format == "xlsx") && st.FormatConfig == nil)
			file := qfs.NewMemfileReader("/d/"+name, &chunkReader{data: stored, r: t.rand, max: 1 + t.rand.Intn(120)})
			ds.SetBodyFile(file)
			err := detect.Structure(ds)
			if settled {
				if err != nil || dd(ds.Structure) != dd(&before) || ds.BodyFile() != qfs.File(file) {
					return fmt.Sprintf("a settled structure: error %v, becomes %s", err, dd(ds.Structure))
				}
				return ""
			}
			if (err == nil) != schemaOK {
				return fmt.Sprintf("error %v", err)
			}
			if err != nil {
				if ds.BodyFile() != qfs.File(file) || (st == nil) != (ds.Structure == nil) || st != nil && dd(ds.Structure) != dd(&before) {
					return "a failure changes the dataset"
				}
				return ""
			}
			if ds.BodyFile().FileName() != name {
				return "the body is now called " + ds.BodyFile().FileName()
			}
			got, err := ioutil.ReadAll(ds.BodyFile())
			if err != nil || !bytes.Equal(got, stored) {
				return fmt.Sprintf("afterwards the body reads as %d of %d bytes, error %v", len(got), len(stored), err)
			}
			want := before
			f := fmts[ext].String()
			if want.Format == "" {
				want.Format = f
			}
			if want.Compression == "" {
				want.Compression = map[string]string{"": "", ".gz": "gzip", ".zst": "zst"}[comp]
			}
			if want.FormatConfig == nil && want.Format == f {
				want.FormatConfig = conf
			}
			if want.Schema == nil {
				switch {
				case ext == ".csv":
					schema, _ = ds.Structure.Schema, 0
					if s := csvSchemaOK(schema, body); s != "" {
						return s
					}
				case isArr:
					schema = dataset.BaseSchemaArray
				default:
					schema = dataset.BaseSchemaObject
				}
				want.Schema = schema
			}
			if dd(ds.Structure) != dd(&want) {
				return fmt.Sprintf("gives %s, want %s", dd(ds.Structure), dd(&want))
			}
			if st != nil && ds.Structure != st {
				return "the structure was replaced"
			}
			return ""
		})
		if i%20 == 0 {
			t.Do("FromFile", input, func() string {
				dir := filepath.Join(t.scratch, "c20")
				os.MkdirAll(dir, 0755)
				p := filepath.Join(dir, name)
				if err := ioutil.WriteFile(p, stored, 0644); err != nil {
					return ""
				}
				got, err := detect.FromFile(p)
				if (err == nil) != schemaOK {
					return fmt.Sprintf("error %v", err)
				}
				if err != nil {
					return ""
				}
				ds := &dataset.Dataset{}
				ds.SetBodyFile(qfs.NewMemfileBytes(name, stored))
				if err := detect.Structure(ds); err != nil || dd(ds.Structure) != dd(got) {
					return fmt.Sprintf("from the file %s, from its content %s (%v)", dd(got), dd(ds.Structure), err)
				}
				return ""
			})
		}
	}
	t.Do("no body", "", func() string {
		if err := detect.Structure(&dataset.Dataset{}); err != dataset.ErrNoBody {
			return fmt.Sprintf("gives %v", err)
		}
		if err := detect.Structure(nil); err == nil {
			return "no dataset is no error"
		}
		return ""
	})
	for i := 0; i < n/10; i++ {
		data := jsonValue(t.rand, 3)
		if t.rand.Intn(2) == 0 {
			rows := []interface{}{}
			for j := t.rand.Intn(3); j > 0; j-- {
				row := []interface{}{}
				for k := t.rand.Intn(4); k > 0; k-- {
					row = append(row, []interface{}{1, "a", nil, true, 2.5, int64(3)}[t.rand.Intn(6)])
				}
				rows = append(rows, row)
			}
			data = rows
		}
		t.Do("TabularSchemaFromTabularData", dd(data), func() string {
			got, err := detect.TabularSchemaFromTabularData(data)
			rows, ok := data.([]interface{})
			_, isMap := data.(map[string]interface{})
			if !ok {
				if isMap != (err != nil) {
					return fmt.Sprintf("error %v", err)
				}
				return ""
			}
			var row []interface{}
			if len(rows) > 0 {
				row, ok = rows[0].([]interface{})
			}
			if len(rows) == 0 || !ok {
				if err == nil || got != nil {
					return "no error for data that is no table"
				}
				return ""
			}
			cols := []interface{}{}
			for j, v := range row {
				ty := "string"
				switch v.(type) {
				case nil:
					ty = "null"
				case bool:
					ty = "boolean"
				case int, int64, float64:
					ty = "number"
				}
				cols = append(cols, map[string]interface{}{"title": fmt.Sprintf("col_%d", j), "type": ty})
			}
			want := map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": cols}}
			if err != nil || dd(got) != dd(want) {
				return fmt.Sprintf("gives %s %v", dd(got), err)
			}
			return ""
		})
	}
}

// csvSchemaOK: a detected schema of a CSV body is a table with one named, typed column for each cell of the first row,
// and reads the body.
func csvSchemaOK(schema map[string]interface{}, body []byte) string {
	first := strings.Split(strings.SplitN(string(body), "\n", 2)[0], ",")
	items, _ := schema["items"].(map[string]interface{})
	cols, _ := items["items"].([]interface{})
	if schema["type"] != "array" || items["type"] != "array" || len(cols) != len(first) {
		j, _ := json.Marshal(schema)
		return "the schema of " + string(body) + " is " + string(j)
	}
	header := true
	for _, c := range first {
		header = header && couldBeName(strings.Trim(c, "\""))
	}
	for i, c := range cols {
		m, ok := c.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("column %d is %v", i, c)
		}
		if !header && m["title"] != fmt.Sprintf("field_%d", i+1) {
			return fmt.Sprintf("column %d is called %v", i, m["title"])
		}
	}
	st := &dataset.Structure{Format: "csv", Schema: schema, FormatConfig: map[string]interface{}{"lazyQuotes": true, "headerRow": header, "variadicFields": true}}
	r, err := dsio.NewEntryReader(st, bytes.NewReader(body))
	if err != nil {
		return "the schema does not read the body: " + err.Error()
	}
	n := 0
	for {
		if _, err := r.ReadEntry(); err != nil {
			break
		}
		n++
	}
	want := strings.Count(string(body), "\n")
	if header {
		want--
	}
	if n != want {
		return fmt.Sprintf("reads %d rows of %d with the schema", n, want)
	}
	return ""
}
