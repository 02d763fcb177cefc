package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"testing/iotest"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/tabular"
	"github.com/qri-io/qfs"
)

func init() {
	props["C12"] = c12
	props["C13"] = c13
	props["C17"] = c17
	props["C23"] = c23
}

// fakeReader is a reader with given entries and errors; errs[i] stands in place of the entry.
type fakeReader struct {
	st     *dataset.Structure
	ents   []dsio.Entry
	errs   map[int]error
	n      int
	closed int
	clErr  error
}

func (f *fakeReader) Structure() *dataset.Structure { return f.st }
func (f *fakeReader) ReadEntry() (dsio.Entry, error) {
	i := f.n
	f.n++
	if f.errs[i] != nil {
		return dsio.Entry{}, f.errs[i]
	}
	if i >= len(f.ents) {
		return dsio.Entry{}, io.EOF
	}
	return f.ents[i], nil
}
func (f *fakeReader) Close() error { f.closed++; return f.clErr }

type fakeWriter struct {
	ents   []dsio.Entry
	failAt int
	err    error
}

func (f *fakeWriter) Structure() *dataset.Structure { return nil }
func (f *fakeWriter) WriteEntry(e dsio.Entry) error {
	if f.err != nil && len(f.ents) == f.failAt {
		return f.err
	}
	f.ents = append(f.ents, e)
	return nil
}
func (f *fakeWriter) Close() error { return nil }

func fakeEntries(r *rand.Rand, n int, keyed bool) []dsio.Entry {
	var out []dsio.Entry
	for i := 0; i < n; i++ {
		e := dsio.Entry{Index: r.Intn(50), Value: jsonValue(r, 2)}
		if keyed {
			e.Key = fmt.Sprintf("k%d", r.Intn(n+2))
		}
		if r.Intn(8) == 0 {
			e.Value = nil
		}
		out = append(out, e)
	}
	return out
}

func arrayStructure() *dataset.Structure {
	return &dataset.Structure{Schema: map[string]interface{}{"type": "array"}}
}

func objectStructure() *dataset.Structure {
	return &dataset.Structure{Schema: map[string]interface{}{"type": "object"}}
}

func c12(t *T) {
	t.Bound("readers of up to 12 entries, every limit and offset from -1 (offset) or 0 (limit) to 14, with and without a failing entry; pages of converted bodies of 4 formats; larger random pages up to 5000 entries")
	r := t.rand
	check := func(n, off, lim, bad int) {
		ents := fakeEntries(r, n, r.Intn(2) == 0)
		boom := []error{errors.New("boom"), io.ErrUnexpectedEOF, fmt.Errorf("reading: %w", io.EOF), errors.New("EOF ")}[r.Intn(4)]
		f := &fakeReader{st: arrayStructure(), ents: ents}
		if bad >= 0 {
			f.errs = map[int]error{bad: boom}
		}
		o := off
		if o < 0 {
			o = 0
		}
		t.Do("page", fmt.Sprintf("%d entries, offset %d, limit %d, error at %d", n, off, lim, bad), func() string {
			p := &dsio.PagedReader{Reader: f, Offset: off, Limit: lim}
			if p.Structure() != f.st {
				return "not the structure of the wrapped reader"
			}
			pos := 0
			for i := 0; i < lim+3; i++ {
				before := f.n
				e, err := p.ReadEntry()
				if pos < o { // the entries before the page are skipped at the first read
					switch {
					case bad >= 0 && bad < o && bad < n:
						if err != boom {
							return fmt.Sprintf("error while skipping is %v", err)
						}
						return ""
					case n < o:
						if err != io.EOF || f.n != n+1 {
							return fmt.Sprintf("offset past the end gives %v, %v after %d reads", e, err, f.n)
						}
						return ""
					}
					pos = o
					before = f.n - 1
					if i >= lim {
						before = f.n
					}
				}
				switch {
				case i >= lim:
					if err != io.EOF || !reflect.DeepEqual(e, dsio.Entry{}) {
						return fmt.Sprintf("read %d after the limit gives %v, %v", i, e, err)
					}
					if f.n != before {
						return "reads on after the limit"
					}
				case bad == pos:
					if err != boom {
						return fmt.Sprintf("read %d gives %v, %v in place of the reader's error", i, e, err)
					}
					return ""
				case pos >= n:
					if err != io.EOF {
						return fmt.Sprintf("read %d gives %v, %v at the end of the reader", i, e, err)
					}
					return ""
				default:
					if err != nil || !reflect.DeepEqual(e, ents[pos]) {
						return fmt.Sprintf("read %d gives %v, %v, not entry %d: %v", i, e, err, pos, ents[pos])
					}
					if f.n != pos+1 {
						return fmt.Sprintf("%d entries read for entry %d", f.n, pos)
					}
				}
				pos++
			}
			if f.closed != 0 {
				return "closes the reader early"
			}
			f.clErr = boom
			if err := p.Close(); err != boom || f.closed != 1 {
				return fmt.Sprintf("Close gives %v and closes the reader %d times", err, f.closed)
			}
			return ""
		})
	}
	for n := 0; n <= 12; n += 3 {
		for off := -1; off <= 14; off++ {
			for lim := 0; lim <= 14; lim += 1 + r.Intn(2) {
				check(n, off, lim, -1)
				if n > 0 {
					check(n, off, lim, r.Intn(n))
				}
			}
		}
	}
	for i := 0; i < t.N(30, 300); i++ {
		check(r.Intn(5000), r.Intn(3000), r.Intn(3000), -1)
	}
	for i := 0; i < t.N(120, 2000); i++ {
		n, off, lim := r.Intn(30), r.Intn(35), r.Intn(35)
		keyed := r.Intn(2) == 0
		ents := fakeEntries(r, n, keyed)
		want := []interface{}{}
		for k := off; k < off+lim && k < n; k++ {
			want = append(want, ents[k].Value)
		}
		t.Do("whole", fmt.Sprintf("%d entries, offset %d, limit %d, case %d", n, off, lim, i), func() string {
			got, err := dsio.ReadAll(&dsio.PagedReader{Reader: &fakeReader{st: arrayStructure(), ents: ents}, Offset: off, Limit: lim})
			if err != nil || !reflect.DeepEqual(got, want) {
				return fmt.Sprintf("ReadAll of the page gives %v, %v, not %v", got, err, want)
			}
			w := &fakeWriter{}
			err = dsio.Copy(&dsio.PagedReader{Reader: &fakeReader{st: arrayStructure(), ents: ents}, Offset: off, Limit: lim}, w)
			if err != nil || len(w.ents) != len(want) {
				return fmt.Sprintf("Copy of the page writes %d entries, error %v, not %d", len(w.ents), err, len(want))
			}
			for k, e := range w.ents {
				if !reflect.DeepEqual(e, ents[off+k]) {
					return fmt.Sprintf("Copy writes %v for entry %d: %v", e, off+k, ents[off+k])
				}
			}
			num := 0
			err = dsio.EachEntry(&dsio.PagedReader{Reader: &fakeReader{st: arrayStructure(), ents: ents}, Offset: off, Limit: lim}, func(i int, e dsio.Entry, err error) error {
				if i != num || err != nil || !reflect.DeepEqual(e, ents[off+i]) {
					return fmt.Errorf("call %d has number %d, entry %v, error %v", num, i, e, err)
				}
				num++
				return nil
			})
			if err != nil || num != len(want) {
				return fmt.Sprintf("EachEntry of the page: %d calls, %v", num, err)
			}
			return ""
		})
	}
	for _, in := range []string{"csv", "json", "ndjson", "cbor"} {
		for i := 0; i < t.N(8, 80); i++ {
			n, off, lim := r.Intn(30), r.Intn(35), r.Intn(35)
			rows := tableRows(r, n)
			body, err := writeBody(&dataset.Structure{Format: in, Schema: tabularSchema}, rows)
			if err != nil {
				continue
			}
			t.Do("convert", fmt.Sprintf("%s, %d rows, offset %d, limit %d", in, n, off, lim), func() string {
				out := &dataset.Structure{Format: "json", Schema: tabularSchema}
				data, err := dsio.ConvertFile(qfs.NewMemfileBytes("b."+in, body), &dataset.Structure{Format: in, Schema: tabularSchema}, out, lim, off, false)
				if err != nil {
					return err.Error()
				}
				var got []interface{}
				if err := json.Unmarshal(data, &got); err != nil {
					return err.Error()
				}
				want := []interface{}{}
				for k := off; k < off+lim && k < n; k++ {
					want = append(want, rows[k])
				}
				if !sameNum(got, want) {
					return fmt.Sprintf("page is %s, not %s", dd(got), dd(want))
				}
				return ""
			})
		}
	}
}

// tableRows are rows that fit tabularSchema and every format.
func tableRows(r *rand.Rand, n int) []interface{} {
	rows := []interface{}{}
	for i := 0; i < n; i++ {
		rows = append(rows, []interface{}{strings.ReplaceAll(rstr(r), "\u2028", "_"), int64(r.Intn(1<<uint(1+r.Intn(40))) - 1000), float64(r.Intn(100000)-500) / 16, r.Intn(2) == 0})
	}
	return rows
}

func writeBody(st *dataset.Structure, rows []interface{}) ([]byte, error) {
	var buf bytes.Buffer
	w, err := dsio.NewEntryWriter(st, &buf)
	if err != nil {
		return nil, err
	}
	for i, x := range rows {
		if err := w.WriteEntry(dsio.Entry{Index: i, Value: x}); err != nil {
			return nil, err
		}
	}
	err = w.Close()
	return buf.Bytes(), err
}

// sameNum is deep equality of JSON-like values, where numbers are equal by value.
func sameNum(a, b interface{}) bool {
	if x, ok := number(a); ok {
		y, ok := number(b)
		return ok && (x == y || math.IsNaN(x) && math.IsNaN(y))
	}
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameNum(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !sameNum(v, w) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func number(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case int64:
		return float64(x), true
	case int32:
		return float64(x), true
	case uint64:
		return float64(x), true
	case float32:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

// ---- C13: moving whole streams ----

func c13(t *T) {
	t.Bound("streams of up to 40 entries with an error at every position; conversions between 4 formats with 3 compressions, whole and paged")
	r := t.rand
	booms := []error{errors.New("boom"), io.ErrUnexpectedEOF, fmt.Errorf("reading: %w", io.EOF), errors.New("eof"), io.ErrClosedPipe, io.ErrShortBuffer, context.Canceled}
	boom := booms[0]
	for n := 0; n <= 8; n++ {
		for bad := -1; bad <= n; bad++ {
			for wbad := -1; wbad <= n; wbad++ {
				boom := booms[r.Intn(len(booms))]
				ents := fakeEntries(r, n, r.Intn(2) == 0)
				f := &fakeReader{st: arrayStructure(), ents: ents, errs: map[int]error{}}
				if bad >= 0 {
					f.errs[bad] = boom
				}
				w := &fakeWriter{failAt: wbad}
				if wbad >= 0 {
					w.err = errors.New("full")
				}
				t.Do("copy", fmt.Sprintf("%d entries, read error at %d, write error at %d", n, bad, wbad), func() string {
					err := dsio.Copy(f, w)
					k := n
					if bad >= 0 && bad < k {
						k = bad
					}
					rerr := bad >= 0
					if wbad >= 0 && wbad < k {
						k, rerr = wbad, false
					}
					werr := wbad >= 0 && wbad == k && k < n && (bad < 0 || wbad < bad)
					if (err != nil) != (rerr || werr) {
						return fmt.Sprintf("error is %v", err)
					}
					if err != nil && !strings.Contains(err.Error(), map[bool]string{true: "full", false: boom.Error()}[werr]) {
						return fmt.Sprintf("the error %q hides its cause", err)
					}
					if len(w.ents) != k {
						return fmt.Sprintf("%d entries written, not %d", len(w.ents), k)
					}
					for i := range w.ents {
						if !reflect.DeepEqual(w.ents[i], ents[i]) {
							return fmt.Sprintf("entry %d written as %v, not %v", i, w.ents[i], ents[i])
						}
					}
					return ""
				})
			}
		}
	}
	for i := 0; i < t.N(300, 3000); i++ {
		n := r.Intn(40)
		keyed := i%2 == 0
		ents := fakeEntries(r, n, keyed)
		f := func() *fakeReader {
			return &fakeReader{st: arrayStructure(), ents: ents, errs: map[int]error{}}
		}
		bad := -1
		boom := booms[r.Intn(len(booms))]
		if r.Intn(3) == 0 {
			bad = r.Intn(n + 1)
		}
		t.Do("readall", fmt.Sprintf("%d entries, error at %d, case %d", n, bad, i), func() string {
			a, o, all := f(), f(), f()
			if keyed {
				all.st = objectStructure()
			}
			if bad >= 0 {
				a.errs[bad], o.errs[bad], all.errs[bad] = boom, boom, boom
			}
			warr, wobj := []interface{}{}, map[string]interface{}{}
			for _, e := range ents {
				warr = append(warr, e.Value)
				wobj[e.Key] = e.Value
			}
			ga, erra := dsio.ReadAllArray(a)
			gobj, erro := dsio.ReadAllObject(o)
			g, err := dsio.ReadAll(all)
			if bad >= 0 {
				if !errors.Is(erra, boom) || !errors.Is(erro, boom) || !errors.Is(err, boom) {
					return fmt.Sprintf("the reader's error becomes %v, %v, %v", erra, erro, err)
				}
				if ga != nil || gobj != nil {
					return "a part is given with the error"
				}
				return ""
			}
			if erra != nil || erro != nil || err != nil {
				return fmt.Sprintf("errors %v, %v, %v", erra, erro, err)
			}
			if !reflect.DeepEqual(ga, warr) || !reflect.DeepEqual(gobj, wobj) {
				return fmt.Sprintf("gives %v and %v, not %v and %v", ga, gobj, warr, wobj)
			}
			var want interface{} = warr
			if keyed {
				want = wobj
			}
			if !reflect.DeepEqual(g, want) {
				return fmt.Sprintf("ReadAll gives %v, not %v", g, want)
			}
			return ""
		})
		stop, stopErr := -1, error(nil)
		if r.Intn(2) == 0 {
			stop, stopErr = r.Intn(n+1), []error{io.EOF, boom}[r.Intn(2)]
		}
		t.Do("each", fmt.Sprintf("%d entries, error at %d, fn stops at %d with %v, case %d", n, bad, stop, stopErr, i), func() string {
			x := f()
			if bad >= 0 {
				x.errs[bad] = boom
			}
			num := 0
			msg := ""
			err := dsio.EachEntry(x, func(i int, e dsio.Entry, err error) error {
				if i != num || err != nil || !reflect.DeepEqual(e, ents[num]) {
					msg = fmt.Sprintf("call %d: number %d, entry %v, error %v", num, i, e, err)
				}
				num++
				if i == stop {
					return stopErr
				}
				return nil
			})
			want, wantErr := n, ""
			if bad >= 0 {
				want, wantErr = bad, boom.Error()
			}
			if stop >= 0 && stop < want {
				want, wantErr = stop+1, ""
				if stopErr == boom {
					wantErr = boom.Error()
				}
			}
			if msg == "" && num != want {
				msg = fmt.Sprintf("%d calls, not %d", num, want)
			}
			if msg == "" && (err != nil) != (wantErr != "") {
				msg = fmt.Sprintf("error %v", err)
			}
			return msg
		})
	}
	for _, s := range []map[string]interface{}{nil, {}, {"type": 3.0}, {"type": "string"}, {"type": []interface{}{"array"}}, {"type": ""}, {"type": "Array"}, {"type": nil}} {
		t.Do("toptype", show(s), func() string {
			st := &dataset.Structure{Schema: s}
			if x, err := dsio.GetTopLevelType(st); err == nil || x != "" {
				return fmt.Sprintf("gives %q, %v", x, err)
			}
			if v, err := dsio.ReadAll(&fakeReader{st: st}); err == nil {
				return fmt.Sprintf("ReadAll gives %v", v)
			}
			return ""
		})
	}
	for _, s := range []string{"array", "object"} {
		t.Do("toptype", s, func() string {
			if x, err := dsio.GetTopLevelType(&dataset.Structure{Schema: map[string]interface{}{"type": s, "items": 4.0}}); err != nil || x != s {
				return fmt.Sprintf("gives %q, %v", x, err)
			}
			return ""
		})
	}
	for i := 0; i < t.N(40, 400); i++ {
		data := randBytes(r, r.Intn(4000))
		t.Do("tracked", fmt.Sprintf("%d bytes, case %d", len(data), i), func() string {
			var src io.Reader = &chunkReader{data: append([]byte{}, data...), r: r, max: 1 + r.Intn(500)}
			if i%2 == 0 {
				src = iotest.DataErrReader(src)
			}
			tr := dsio.NewTrackedReader(src)
			var got []byte
			p := make([]byte, 1+r.Intn(300))
			for {
				n, err := tr.Read(p)
				got = append(got, p[:n]...)
				if tr.BytesRead() != len(got) || !bytes.HasPrefix(data, got) {
					return fmt.Sprintf("counts %d after %d bytes, or other bytes", tr.BytesRead(), len(got))
				}
				if err != nil {
					break
				}
			}
			if !bytes.Equal(got, data) {
				return "not all bytes"
			}
			return ""
		})
	}
	formats := []string{"csv", "json", "ndjson", "cbor"}
	comps := []string{"", "gzip", "zstd"}
	for _, in := range formats {
		for _, out := range formats {
			for i := 0; i < t.N(6, 60); i++ {
				n := r.Intn(12)
				if r.Intn(6) == 0 {
					n = r.Intn(400)
				}
				rows := tableRows(r, n)
				ist := &dataset.Structure{Format: in, Schema: tabularSchema, Compression: comps[r.Intn(3)]}
				ost := &dataset.Structure{Format: out, Schema: tabularSchema, Compression: comps[r.Intn(3)]}
				if in == "csv" && r.Intn(2) == 0 {
					ist.FormatConfig = map[string]interface{}{"headerRow": true, "separator": ";"}
				}
				if out == "csv" && r.Intn(2) == 0 {
					ost.FormatConfig = map[string]interface{}{"headerRow": true, "separator": "\t"}
				}
				if out == "json" && r.Intn(2) == 0 {
					ost.FormatConfig = map[string]interface{}{"pretty": r.Intn(3) > 0}
				}
				all := r.Intn(2) == 0
				off, lim := r.Intn(n+2), r.Intn(n+2)
				t.Do("convert", fmt.Sprintf("%s.%s to %s.%s %v, %d rows, all %v, offset %d, limit %d, case %d", in, ist.Compression, out, ost.Compression, ost.FormatConfig, n, all, off, lim, i), func() string {
					body, err := writeBody(ist, rows)
					if err != nil {
						return "writing the source: " + err.Error()
					}
					data, err := dsio.ConvertFile(qfs.NewMemfileReader("b", &chunkReader{data: body, r: r, max: 50}), ist, ost, lim, off, all)
					if err != nil {
						return err.Error()
					}
					want := rows
					if !all {
						want = []interface{}{}
						for k := off; k < off+lim && k < n; k++ {
							want = append(want, rows[k])
						}
					}
					rd, err := dsio.NewEntryReader(ost, bytes.NewReader(data))
					if err != nil {
						return "reading the result: " + err.Error()
					}
					got, err := dsio.ReadAll(rd)
					if err != nil || !sameNum(got, want) {
						return fmt.Sprintf("the result reads as %s, error %v, not %s", clip(dd(got)), err, clip(dd(want)))
					}
					if p, _ := ost.FormatConfig["pretty"].(bool); out == "json" && ost.Compression == "" && len(want) > 0 && bytes.Contains(data, []byte("\n")) != p {
						return fmt.Sprintf("pretty %v, but the text is %q", p, clip(string(data)))
					}
					return ""
				})
			}
			rows := tableRows(r, 5)
			for cut := 0; cut < 3; cut++ {
				t.Do("broken", fmt.Sprintf("%s to %s, source fails %d", in, out, cut), func() string {
					st := &dataset.Structure{Format: in, Schema: tabularSchema}
					body, _ := writeBody(st, rows)
					data, err := dsio.ConvertFile(qfs.NewMemfileReader("b", &chunkReader{data: body[:len(body)/(cut+2)], r: r, max: 50, err: boom}), st, &dataset.Structure{Format: out, Schema: tabularSchema}, 0, 0, true)
					if err == nil || data != nil {
						return fmt.Sprintf("no error, data %q", clip(string(data)))
					}
					return ""
				})
			}
		}
		for i := 0; i < t.N(10, 100); i++ {
			rows := tableRows(r, r.Intn(30))
			st := &dataset.Structure{Format: in, Schema: tabularSchema}
			t.Do("buffer", fmt.Sprintf("%s, %d rows, case %d", in, len(rows), i), func() string {
				b, err := dsio.NewEntryBuffer(st)
				if err != nil {
					return err.Error()
				}
				if b.Structure() != st {
					return "not its structure"
				}
				for k, x := range rows {
					if err := b.WriteEntry(dsio.Entry{Index: k, Value: x}); err != nil {
						return err.Error()
					}
				}
				if err := b.Close(); err != nil {
					return err.Error()
				}
				want, _ := writeBody(st, rows)
				if !bytes.Equal(b.Bytes(), want) {
					return fmt.Sprintf("buffer holds %q, a writer gives %q", clip(string(b.Bytes())), clip(string(want)))
				}
				got, err := entriesOf(b)
				if err != nil || !sameNum(got, append([]interface{}(nil), rows...)) && len(rows) > 0 {
					return fmt.Sprintf("reads %s, %v", clip(dd(got)), err)
				}
				return ""
			})
		}
	}
	for _, f := range []string{"", "xml", "csvx", "text"} {
		t.Do("unknown", f, func() string {
			st := &dataset.Structure{Format: f, Schema: tabularSchema}
			if _, err := dsio.NewEntryReader(st, strings.NewReader("")); err == nil {
				return "a reader without format"
			}
			if _, err := dsio.NewEntryWriter(st, &bytes.Buffer{}); err == nil {
				return "a writer without format"
			}
			if _, err := dsio.NewEntryBuffer(st); err == nil {
				return "a buffer without format"
			}
			return ""
		})
	}
}

// ---- C17: NDJSON ----

func c17(t *T) {
	t.Bound("bodies of up to 60 random lines (one in twenty over 70000 bytes long) in chunks of 1 to 5000 bytes, with and without a last newline, 3 compressions")
	r := t.rand
	for i := 0; i < t.N(400, 4000); i++ {
		n := r.Intn(60)
		var vals []interface{}
		for k := 0; k < n; k++ {
			v := jsonValue(r, 3)
			if r.Intn(200) == 0 {
				v = []interface{}{strings.Repeat("é\"x", 20000)}
			}
			vals = append(vals, v)
		}
		comp := []string{"", "", "", "gzip", "zstd"}[r.Intn(5)]
		st := &dataset.Structure{Format: "ndjson", Compression: comp, Schema: map[string]interface{}{"type": "array"}}
		chunk := 1 + r.Intn([]int{1, 7, 100, 5000}[r.Intn(4)])
		noNL := comp == "" && n > 0 && r.Intn(2) == 0
		t.Do("roundtrip", fmt.Sprintf("%d values, compression %q, chunks up to %d, last newline %v, case %d: %s", n, comp, chunk, !noNL, i, clip(dd(vals))), func() string {
			body, err := writeBody(st, vals)
			if err != nil {
				return err.Error()
			}
			if comp == "" {
				lines := strings.SplitAfter(string(body), "\n")
				if len(lines) != n+1 || lines[n] != "" {
					return fmt.Sprintf("%d lines for %d values", len(lines), n)
				}
				for k, v := range vals {
					var got interface{}
					if err := json.Unmarshal([]byte(lines[k]), &got); err != nil || !sameNum(got, v) {
						return fmt.Sprintf("line %q for %v", lines[k], v)
					}
				}
			}
			if noNL {
				body = body[:len(body)-1]
			}
			rd, err := dsio.NewEntryReader(st, &chunkReader{data: body, r: r, max: chunk})
			if err != nil {
				return err.Error()
			}
			for k, v := range vals {
				e, err := rd.ReadEntry()
				if err != nil || e.Index != k || e.Key != "" || !sameNum(e.Value, v) {
					return fmt.Sprintf("entry %d is %v, %v, not %v", k, e, err, v)
				}
			}
			for k := 0; k < 3; k++ {
				if e, err := rd.ReadEntry(); err != io.EOF {
					return fmt.Sprintf("after the end: %v, %v", e, err)
				}
			}
			if err := rd.Close(); err != nil {
				return err.Error()
			}
			return ""
		})
	}
	pieces := []string{"1", "\"a\"", "{\"a\":[1,{}]}", "null", " [ ] ", "nul", "{", "1 2", "\"", "[1,]", "{\"a\":1}}", "-", "", " ", "tru", "\"\\u00\"", "\"a\tb\"", "01", "1.5e3"}
	for i := 0; i < t.N(400, 4000); i++ {
		n := 1 + r.Intn(5)
		var lines []string
		for k := 0; k < n; k++ {
			lines = append(lines, pieces[r.Intn(len(pieces))])
		}
		body := strings.Join(lines, "\n")
		t.Do("lines", fmt.Sprintf("%q", body), func() string {
			rd, err := dsio.NewEntryReader(&dataset.Structure{Format: "ndjson", Schema: map[string]interface{}{"type": "array"}}, &chunkReader{data: []byte(body), r: r, max: 4})
			if err != nil {
				return err.Error()
			}
			idx := 0
			for k, l := range lines {
				if k == n-1 && strings.TrimSpace(l) == "" {
					break
				}
				var want interface{}
				ok := json.Unmarshal([]byte(l), &want) == nil
				e, err := rd.ReadEntry()
				if (err == nil) != ok {
					return fmt.Sprintf("line %d, %q: %v, %v", k, l, e, err)
				}
				if err == io.EOF {
					return fmt.Sprintf("line %d, %q, is taken for the end", k, l)
				}
				if ok && (!reflect.DeepEqual(e.Value, want) || e.Index != idx) {
					return fmt.Sprintf("line %d, %q: %v", k, l, e)
				}
				if ok {
					idx++
				}
			}
			if e, err := rd.ReadEntry(); err != io.EOF {
				return fmt.Sprintf("after the end: %v, %v", e, err)
			}
			return ""
		})
	}
	boom := errors.New("boom")
	for _, body := range []string{"", "1\n", "1\n2", "1\n{\"a\":", " "} {
		t.Do("failing", fmt.Sprintf("%q", body), func() string {
			rd, err := dsio.NewEntryReader(&dataset.Structure{Format: "ndjson", Schema: map[string]interface{}{"type": "array"}}, &chunkReader{data: []byte(body), r: r, max: 4, err: boom})
			if err != nil {
				return err.Error()
			}
			for k := 0; k < strings.Count(body, "\n"); k++ {
				if _, err := rd.ReadEntry(); err != nil {
					return err.Error()
				}
			}
			if e, err := rd.ReadEntry(); err == nil || err == io.EOF {
				return fmt.Sprintf("a failing source gives %v, %v", e, err)
			}
			return ""
		})
	}
	for _, s := range []map[string]interface{}{nil, {}, {"type": "object"}, {"type": "string"}, {"type": 4.0}} {
		t.Do("schema", show(s), func() string {
			if _, err := dsio.NewNDJSONReader(&dataset.Structure{Format: "ndjson", Schema: s}, strings.NewReader("")); err == nil {
				return "a reader of something other than an array"
			}
			if _, err := dsio.NewNDJSONWriter(&dataset.Structure{Format: "ndjson", Schema: s}, ioutil.Discard); (err == nil) != (s != nil) {
				return fmt.Sprintf("a writer: %v", err)
			}
			return ""
		})
	}
	for _, v := range []interface{}{make(chan int), math.NaN(), []interface{}{math.Inf(1)}, func() {}} {
		t.Do("unencodable", fmt.Sprintf("%T", v), func() string {
			var buf bytes.Buffer
			w, _ := dsio.NewNDJSONWriter(&dataset.Structure{Format: "ndjson", Schema: map[string]interface{}{"type": "array"}}, &buf)
			if err := w.WriteEntry(dsio.Entry{Value: v}); err == nil || buf.Len() != 0 {
				return fmt.Sprintf("written as %q, error %v", buf.String(), err)
			}
			return ""
		})
	}
}

// ---- C23: tabular schemas ----

func c23(t *T) {
	t.Bound("%d random schemas of up to 8 columns; %d random title lists", t.N(3000, 30000), t.N(2000, 20000))
	r := t.rand
	titles := []interface{}{"a", "b", "col_0", "col_1", "A_$9", "9a", "a b", "", "é", 4.0, nil, true, []interface{}{"a"}, "a\n", "_", "$"}
	types := []interface{}{"string", "integer", "", "null", 3.0, nil, []interface{}{}, []interface{}{"string"}, []interface{}{"string", "null"}, []interface{}{3.0}, []interface{}{3.0, "number", nil, "boolean"}, map[string]interface{}{}, []interface{}{"null", "null"}}
	descs := []interface{}{"words", "", 3.0, nil, []interface{}{"x"}}
	for i := 0; i < t.N(3000, 30000); i++ {
		n := r.Intn(9)
		items := []interface{}{}
		for k := 0; k < n; k++ {
			if r.Intn(10) == 0 {
				items = append(items, []interface{}{"a", nil, true, 3.0, []interface{}{}, map[string]interface{}(nil)}[r.Intn(6)])
				continue
			}
			c := map[string]interface{}{}
			if r.Intn(4) > 0 {
				c["title"] = titles[r.Intn(len(titles))]
			}
			if r.Intn(4) > 0 {
				c["type"] = types[r.Intn(len(types))]
			}
			if r.Intn(2) > 0 {
				c["description"] = descs[r.Intn(len(descs))]
			}
			for _, x := range []string{"maximum", "minLength", "Title", "types", "items", "validation", ""} {
				if r.Intn(6) == 0 {
					c[x] = jsonValue(r, 1)
				}
			}
			items = append(items, c)
		}
		sch := map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}
		switch r.Intn(24) {
		case 0:
			sch["type"] = types[r.Intn(len(types))]
		case 1:
			delete(sch, "type")
		case 2:
			delete(sch, "items")
		case 3:
			sch["items"] = items
		case 4:
			sch["items"] = map[string]interface{}{"items": map[string]interface{}{"items": items}}
		case 5:
			sch["items"] = map[string]interface{}{"type": "object", "items": items}
		case 6:
			sch["type"] = "object"
		}
		before := dd(sch)
		t.Do("columns", before, func() string {
			cols, problems, err := tabular.ColumnsFromJSONSchema(sch)
			if after := dd(sch); after != before {
				return "the schema is changed to " + after
			}
			var its []interface{}
			ok := sch["type"] == "array"
			if ok {
				var io map[string]interface{}
				if io, ok = sch["items"].(map[string]interface{}); ok {
					its, ok = io["items"].([]interface{})
				}
			}
			if !ok {
				if err == nil || cols != nil {
					return fmt.Sprintf("not a table, but %s", dd(cols))
				}
				if sch["type"] != "object" && !errors.Is(err, tabular.ErrInvalidTabularSchema) {
					return fmt.Sprintf("error %v is not ErrInvalidTabularSchema", err)
				}
				return ""
			}
			if err != nil {
				return err.Error()
			}
			if len(cols) != len(its) {
				return fmt.Sprintf("%d columns for %d items", len(cols), len(its))
			}
			bad := 0
			for k, it := range its {
				c, isObj := it.(map[string]interface{})
				want := tabular.Column{Title: fmt.Sprintf("col_%d", k), Type: &tabular.ColType{"string"}}
				if s, ok := c["title"].(string); ok {
					want.Title = s
				} else {
					bad++
				}
				tys := tabular.ColType{}
				switch x := c["type"].(type) {
				case string:
					tys = append(tys, x)
				case []interface{}:
					for _, y := range x {
						if s, ok := y.(string); ok {
							tys = append(tys, s)
						}
					}
				}
				if len(tys) > 0 {
					want.Type = &tys
				} else {
					bad++
				}
				want.Description, _ = c["description"].(string)
				for key, v := range c {
					if key != "title" && key != "type" && key != "description" {
						if want.Validation == nil {
							want.Validation = map[string]interface{}{}
						}
						want.Validation[key] = v
					}
				}
				if !isObj {
					bad--
				}
				if !reflect.DeepEqual(cols[k], want) {
					return fmt.Sprintf("column %d of %s is %s, not %s", k, dd(it), dd(cols[k]), dd(want))
				}
				for o := 0; o < k; o++ {
					if cols[o].Type == cols[k].Type {
						return "two columns share their type"
					}
				}
			}
			if len(problems) != bad {
				return fmt.Sprintf("%d problems found, not %d: %q", len(problems), bad, problems)
			}
			ts := cols.Titles()
			if len(ts) != len(cols) {
				return "titles are missing"
			}
			for k, s := range ts {
				if s != cols[k].Title {
					return fmt.Sprintf("title %d is %q, not %q", k, s, cols[k].Title)
				}
			}
			return ""
		})
	}
	pool := []string{"a", "b", "c_1", "$x", "_", "A", "9", "a b", "", "é", "a-b", "a\n", " a", "a.", "B9", "x1", "y2", "z3", "Z_$", "_0", "q", "r", "s", "t"}
	machine := func(s string) bool {
		for i, c := range s {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$' || i > 0 && c >= '0' && c <= '9') {
				return false
			}
		}
		return s != ""
	}
	for i := 0; i < t.N(2000, 20000); i++ {
		n := r.Intn(7)
		good := r.Intn(2) == 0
		var cols tabular.Columns
		for len(cols) < n {
			s := pool[r.Intn(len(pool))]
			if !good || machine(s) {
				cols = append(cols, tabular.Column{Title: s})
			}
		}
		t.Do("titles", fmt.Sprintf("%q", cols.Titles()), func() string {
			ok := true
			seen := map[string]bool{}
			for _, c := range cols {
				if !machine(c.Title) || seen[c.Title] {
					ok = false
				}
				seen[c.Title] = true
			}
			err := cols.ValidMachineTitles()
			if (err == nil) != ok {
				return fmt.Sprintf("valid %v, error %v", ok, err)
			}
			if err != nil && !errors.Is(err, tabular.ErrInvalidTabularSchema) {
				return fmt.Sprintf("error %v is not ErrInvalidTabularSchema", err)
			}
			return ""
		})
	}
	for i := 0; i < t.N(300, 3000); i++ {
		n := r.Intn(5)
		var ct tabular.ColType
		for len(ct) < n {
			ct = append(ct, []string{"string", "null", "a", "", rstr(r)}[r.Intn(5)])
		}
		t.Do("coltype", fmt.Sprintf("%q", []string(ct)), func() string {
			for _, x := range []string{"string", "null", "a", "", "b", "STRING", "strin"} {
				want := false
				for _, y := range ct {
					want = want || x == y
				}
				if ct.HasType(x) != want {
					return fmt.Sprintf("HasType(%q) is %v", x, !want)
				}
			}
			if n == 0 {
				return ""
			}
			b, err := json.Marshal(ct)
			if err != nil {
				return err.Error()
			}
			var back tabular.ColType
			if err := json.Unmarshal(b, &back); err != nil || !reflect.DeepEqual(back, ct) {
				return fmt.Sprintf("%s decodes to %q, %v", b, []string(back), err)
			}
			return ""
		})
	}
	for _, s := range []string{"3", "true", "{}", "[3]", "[\"a\",1]"} {
		t.Do("coltypejson", s, func() string {
			ct := tabular.ColType{"keep"}
			if err := json.Unmarshal([]byte(s), &ct); err == nil {
				return fmt.Sprintf("decodes to %q", []string(ct))
			}
			return ""
		})
	}
}
