package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsio/replacecr"
)

func init() {
	props["C16"] = c16
	props["C18"] = c18
}

func colSchema(types []string) map[string]interface{} {
	items := []interface{}{}
	for i, t := range types {
		c := map[string]interface{}{"title": fmt.Sprintf("t%d", i)}
		if t != "" {
			c["type"] = t
		}
		items = append(items, c)
	}
	return map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}
}

var csvTypes = []string{"string", "integer", "number", "boolean", "object", "array", "null", "", "other"}
var csvCells = []string{"", "a", "1", "-7", "1.5", "1e3", "true", "F", "TRUE", "yes", "{}", "{\"a\":1}", "[1,null]", "[", "null", " 1", "9223372036854775807", "9223372036854775808", "NaN", "0x10", "a b", "é,;", "say \"hi\"", "two\nlines", "+5", "1_0", "-0", "001", "\ttab", "t", "f", "0", "{\"a\":1} x", "∞", "'"}

// cellValue is what a cell is read as in a column of a type.
func cellValue(s, t string) interface{} {
	switch t {
	case "integer":
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
	case "number":
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return f
		}
	case "boolean":
		if b, err := strconv.ParseBool(s); err == nil {
			return b
		}
	case "object":
		m := map[string]interface{}{}
		if err := json.Unmarshal([]byte(s), &m); err == nil {
			return m
		}
	case "array":
		a := []interface{}{}
		if err := json.Unmarshal([]byte(s), &a); err == nil {
			return a
		}
	case "null":
		return nil
	}
	return s
}

func sameCell(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (x == y || math.IsNaN(x) && math.IsNaN(y))
	}
	return reflect.DeepEqual(a, b)
}

func csvConfig(r *rand.Rand) (map[string]interface{}, rune) {
	sep := ','
	if r.Intn(4) == 0 {
		return nil, sep
	}
	m := map[string]interface{}{}
	if r.Intn(2) == 0 {
		m["headerRow"] = r.Intn(3) > 0
	}
	if r.Intn(3) == 0 {
		m["lazyQuotes"] = r.Intn(2) == 0
	}
	if r.Intn(2) == 0 {
		m["variadicFields"] = r.Intn(3) > 0
	}
	if r.Intn(2) == 0 {
		sep = []rune{';', '\t', '|', ' ', 'é', '💡', ':', 'x', ','}[r.Intn(9)]
		m["separator"] = string(sep)
	}
	return m, sep
}

func c16(t *T) {
	t.Bound("%d written bodies of up to 40 rows and 7 columns, with all options and 3 compressions, read in chunks of 1 to 3000 bytes; %d random texts compared with encoding/csv", t.N(500, 5000), t.N(900, 9000))
	r := t.rand
	for i := 0; i < t.N(500, 5000); i++ {
		n := 1 + r.Intn(7)
		var types []string
		for len(types) < n {
			types = append(types, csvTypes[r.Intn(len(csvTypes))])
		}
		cfg, sep := csvConfig(r)
		comp := []string{"", "", "gzip", "zst"}[r.Intn(4)]
		st := &dataset.Structure{Format: "csv", FormatConfig: cfg, Schema: colSchema(types), Compression: comp}
		var rows []interface{}
		for k := r.Intn(40); k > 0; k-- {
			row := []interface{}{}
			for _, ty := range types {
				switch x := r.Intn(9); {
				case x == 0:
					row = append(row, nil)
				case x == 1:
					row = append(row, csvCells[r.Intn(len(csvCells))])
				default:
					switch ty {
					case "integer":
						row = append(row, r.Int63()>>uint(r.Intn(63))-int64(r.Intn(9)))
					case "number":
						row = append(row, []float64{0, -1, 1.0 / 3, 1e300, 5e-324, 123456789.125, -0.1, 1e21, math.MaxFloat64}[r.Intn(9)])
					case "boolean":
						row = append(row, r.Intn(2) == 0)
					case "object":
						row = append(row, jsonMap(r, 2))
					case "array":
						row = append(row, []interface{}{jsonValue(r, 1), rstr(r)})
					case "null":
						row = append(row, nil)
					default:
						if r.Intn(4) == 0 {
							row = append(row, r.Intn(1000))
						} else {
							row = append(row, csvCells[r.Intn(len(csvCells))])
						}
					}
				}
			}
			rows = append(rows, row)
		}
		t.Do("roundtrip", fmt.Sprintf("types %q, config %v, compression %q, rows %s, case %d", types, cfg, comp, clip(dd(rows)), i), func() string {
			body, err := writeBody(st, rows)
			if err != nil {
				return "writing: " + err.Error()
			}
			hdr, _ := cfg["headerRow"].(bool)
			if comp == "" {
				cr := csv.NewReader(bytes.NewReader(body))
				cr.Comma = sep
				recs, err := cr.ReadAll()
				if err != nil {
					return fmt.Sprintf("not CSV: %v: %q", err, clip(string(body)))
				}
				if hdr {
					if len(recs) == 0 || len(recs[0]) != n || recs[0][0] != "t0" || recs[0][n-1] != fmt.Sprintf("t%d", n-1) {
						return fmt.Sprintf("no header row: %q", clip(string(body)))
					}
					recs = recs[1:]
				}
				if len(recs) != len(rows) {
					return fmt.Sprintf("%d records for %d rows: %q", len(recs), len(rows), clip(string(body)))
				}
			}
			rd, err := dsio.NewEntryReader(st, &chunkReader{data: body, r: r, max: 1 + r.Intn(3000)})
			if err != nil {
				return err.Error()
			}
			if rd.Structure() != st {
				return "not its structure"
			}
			for k, row := range rows {
				e, err := rd.ReadEntry()
				if err != nil {
					return fmt.Sprintf("row %d: %v", k, err)
				}
				got, ok := e.Value.([]interface{})
				if !ok || len(got) != n || e.Key != "" {
					return fmt.Sprintf("row %d is %v", k, e)
				}
				for j, v := range row.([]interface{}) {
					want := v
					switch x := v.(type) {
					case nil:
						want = cellValue("", types[j])
					case string:
						want = cellValue(x, types[j])
					case int:
						want = cellValue(strconv.Itoa(x), types[j])
					}
					if !sameCell(got[j], want) && !sameNum(got[j], want) || (types[j] != "object" && types[j] != "array" && !sameCell(got[j], want)) {
						return fmt.Sprintf("row %d, cell %d of type %q: written %T %v, read %T %v", k, j, types[j], v, v, got[j], got[j])
					}
				}
			}
			for k := 0; k < 2; k++ {
				if e, err := rd.ReadEntry(); err != io.EOF {
					return fmt.Sprintf("after the end: %v, %v", e, err)
				}
			}
			if err := rd.Close(); err != nil {
				return err.Error()
			}
			return ""
		})
	}
	for i := 0; i < t.N(900, 9000); i++ {
		n := 1 + r.Intn(4)
		var types []string
		for len(types) < n {
			types = append(types, csvTypes[r.Intn(len(csvTypes))])
		}
		cfg, sep := csvConfig(r)
		var b strings.Builder
		for k := r.Intn(8); k >= 0; k-- {
			m := n
			if r.Intn(4) == 0 {
				m = r.Intn(n + 3)
			}
			for j := 0; j < m; j++ {
				if j > 0 {
					b.WriteRune(sep)
				}
				c := csvCells[r.Intn(len(csvCells))]
				switch r.Intn(5) {
				case 0:
					b.WriteString("\"" + strings.ReplaceAll(c, "\"", "\"\"") + "\"")
				case 1:
					b.WriteString("\"" + c)
				default:
					b.WriteString(c)
				}
			}
			b.WriteString([]string{"\n", "\n", "\n", "\r\n", "\r", ""}[r.Intn(6)])
		}
		text := b.String()
		st := &dataset.Structure{Format: "csv", FormatConfig: cfg, Schema: colSchema(types)}
		t.Do("text", fmt.Sprintf("types %q, config %v, %q", types, cfg, text), func() string {
			rd, err := dsio.NewEntryReader(st, &chunkReader{data: []byte(text), r: r, max: 1 + r.Intn(40)})
			if err != nil {
				return err.Error()
			}
			ref := csv.NewReader(strings.NewReader(lonelyCR(text)))
			ref.Comma = sep
			ref.LazyQuotes, _ = cfg["lazyQuotes"].(bool)
			if v, _ := cfg["variadicFields"].(bool); v {
				ref.FieldsPerRecord = -1
			}
			if h, _ := cfg["headerRow"].(bool); h {
				if _, err := ref.Read(); err != nil {
					if _, err2 := rd.ReadEntry(); err2 == nil {
						return fmt.Sprintf("the header is broken (%v), but read", err)
					}
					return ""
				}
			}
			for k := 0; k < 20; k++ {
				rec, err := ref.Read()
				e, err2 := rd.ReadEntry()
				if (err == nil) != (err2 == nil) || (err == io.EOF) != (err2 == io.EOF) {
					return fmt.Sprintf("record %d: %v, %v, encoding/csv gives %q, %v", k, e, err2, rec, err)
				}
				if err == io.EOF {
					return ""
				}
				if err != nil {
					continue
				}
				got, ok := e.Value.([]interface{})
				if !ok || len(got) != len(rec) {
					return fmt.Sprintf("record %d: %v, not %q", k, e, rec)
				}
				for j, s := range rec {
					ty := "string"
					if len(rec) <= n {
						ty = types[j]
					}
					if want := cellValue(s, ty); !sameCell(got[j], want) {
						return fmt.Sprintf("record %d, cell %d of type %q: %q is read as %T %v", k, j, ty, s, got[j], got[j])
					}
				}
			}
			return ""
		})
	}
	for _, v := range []interface{}{make(chan int), float32(1), int32(4), []string{"a"}, map[string]string{}, struct{}{}, []interface{}{math.NaN()}, map[string]interface{}{"a": make(chan int)}, []byte("a")} {
		for _, at := range []int{0, 1, 2} {
			t.Do("unencodable", fmt.Sprintf("%T in cell %d", v, at), func() string {
				var buf bytes.Buffer
				w, err := dsio.NewCSVWriter(&dataset.Structure{Format: "csv", Schema: colSchema([]string{"string", "string", "string"})}, &buf)
				if err != nil {
					return err.Error()
				}
				row := []interface{}{"a", "b", "c"}
				row[at] = v
				if err := w.WriteEntry(dsio.Entry{Value: row}); err == nil {
					w.Close()
					return fmt.Sprintf("written as %q", buf.String())
				}
				if err := w.Close(); err != nil || buf.Len() != 0 {
					return fmt.Sprintf("left %q, %v", buf.String(), err)
				}
				return ""
			})
		}
	}
	for _, v := range []interface{}{nil, "a", 3, map[string]interface{}{"a": 1}, []string{"a"}} {
		t.Do("notarow", fmt.Sprintf("%T", v), func() string {
			w, _ := dsio.NewCSVWriter(&dataset.Structure{Format: "csv", Schema: colSchema([]string{"string"})}, ioutil.Discard)
			if err := w.WriteEntry(dsio.Entry{Value: v}); err == nil {
				return "written without error"
			}
			return ""
		})
	}
	for _, s := range []map[string]interface{}{nil, {"type": "array"}, {"type": "object"}, {"type": "array", "items": map[string]interface{}{"type": "string"}}} {
		t.Do("schema", show(s), func() string {
			st := &dataset.Structure{Format: "csv", Schema: s}
			if _, err := dsio.NewCSVReader(st, strings.NewReader("")); err == nil {
				return "a reader without a table schema"
			}
			if _, err := dsio.NewCSVWriter(st, ioutil.Discard); err == nil {
				return "a writer without a table schema"
			}
			return ""
		})
	}
	for cut := 0; cut < 30; cut++ {
		t.Do("failing sink", fmt.Sprintf("after %d bytes", cut), func() string {
			w, err := dsio.NewCSVWriter(&dataset.Structure{Format: "csv", Schema: colSchema([]string{"string"})}, &cutWriter{left: cut})
			if err != nil {
				return err.Error()
			}
			for k := 0; k < 10; k++ {
				if err := w.WriteEntry(dsio.Entry{Value: []interface{}{[]string{"abc", ""}[k%2]}}); err != nil {
					return ""
				}
			}
			if err := w.Close(); err == nil {
				return "a body that was cut off is closed without error"
			}
			return ""
		})
	}
}

// cutWriter fails once its room is used up.
type cutWriter struct {
	left int
	got  []byte
}

func (c *cutWriter) Write(p []byte) (int, error) {
	if len(p) > c.left {
		c.got = append(c.got, p[:c.left]...)
		n := c.left
		c.left = 0
		return n, errors.New("no space left")
	}
	c.left -= len(p)
	c.got = append(c.got, p...)
	return len(p), nil
}

// lonelyCR is the text with each \r that no \n follows replaced by \r\n.
func lonelyCR(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		b = append(b, s[i])
		if s[i] == '\r' && (i+1 == len(s) || s[i+1] != '\n') {
			b = append(b, '\n')
		}
	}
	return string(b)
}

// ---- C18: lonely carriage returns ----

func c18(t *T) {
	t.Bound("every text over {a, CR, LF} up to length %d, with every read size up to 5; %d random texts up to 9000 bytes with buffers of 16 to 5000 bytes, chunked and failing sources", t.N(7, 9), t.N(600, 6000))
	r := t.rand
	run := func(key, text string, bufSize, readSize int, src func() io.Reader, end error) {
		t.Do(key, fmt.Sprintf("%q, buffer %d, reads of %d, ends with %v", clip(text), bufSize, readSize, end), func() string {
			var rd io.Reader
			if bufSize == 0 {
				rd = replacecr.Reader(src())
			} else {
				rd = replacecr.ReaderWithSize(src(), bufSize)
			}
			want := lonelyCR(text)
			var got []byte
			for k := 0; k < 20000; k++ {
				n := readSize
				if n <= 0 {
					n = r.Intn(40)
				}
				p := make([]byte, n+3)
				for x := range p {
					p[x] = 0xee
				}
				m, err := rd.Read(p[:n:n])
				if m < 0 || m > n {
					return fmt.Sprintf("Read gives %d of %d", m, n)
				}
				if n == 0 && (m != 0 || err != nil) {
					return fmt.Sprintf("an empty read gives %d, %v", m, err)
				}
				if m == 0 && err == nil && n > 0 {
					return "a read gives nothing and no error"
				}
				got = append(got, p[:m]...)
				if err != nil {
					if end != nil {
						// a lonely carriage return at the break is not known to be lonely
						want2 := lonelyCR(text + "\n")
						want2 = want2[:len(want2)-1]
						if err != end || string(got) != want2 {
							return fmt.Sprintf("gives %q, %v, not %q", clip(string(got)), err, clip(want2))
						}
						return ""
					}
					if err != io.EOF {
						return err.Error()
					}
					if string(got) != want {
						return fmt.Sprintf("gives %q, not %q", clip(string(got)), clip(want))
					}
					if m, err := rd.Read(make([]byte, 4)); m != 0 || err != io.EOF {
						return fmt.Sprintf("after the end: %d, %v", m, err)
					}
					return ""
				}
			}
			return "does not end"
		})
	}
	var all func(prefix string, n int)
	all = func(prefix string, n int) {
		for size := 1; size <= 5; size++ {
			run("short", prefix, 0, size, func() io.Reader { return strings.NewReader(prefix) }, nil)
		}
		if n > 0 {
			for _, c := range []string{"a", "\r", "\n"} {
				all(prefix+c, n-1)
			}
		}
	}
	all("", t.N(7, 9))
	boom := errors.New("boom")
	for i := 0; i < t.N(600, 6000); i++ {
		n := []int{3, 17, 33, 300, 5000, 9000}[r.Intn(6)]
		b := make([]byte, n)
		dens := 1 + r.Intn(20)
		for k := range b {
			b[k] = "abcdefghijklmnopqrstuvwxyz,;\"\x00\xff"[r.Intn(31)]
			if r.Intn(dens) == 0 {
				b[k] = "\r\n\r"[r.Intn(3)]
			}
		}
		if r.Intn(3) == 0 && n > 16 {
			b[15] = '\r'
			if n > 4096 {
				b[4095] = '\r'
			}
		}
		if r.Intn(4) == 0 {
			b[n-1] = '\r'
		}
		bs := []int{0, 16, 17, 64, 5000}[r.Intn(5)]
		rs := []int{0, 1, 2, 7, 4096}[r.Intn(5)]
		max := []int{1, 5, 5000}[r.Intn(3)]
		var end error
		if r.Intn(4) == 0 {
			end = boom
		}
		run("random", string(b), bs, rs, func() io.Reader {
			var src io.Reader = &chunkReader{data: append([]byte{}, b...), r: r, max: max, err: end}
			if i%3 == 0 && end == nil {
				src = iotest.DataErrReader(src)
			}
			return src
		}, end)
	}
}
