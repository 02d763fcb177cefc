package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"reflect"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
)

func init() {
	props["C19"] = c19
}

// chunkReader gives its data a few bytes at a time.
type chunkReader struct {
	data  []byte
	r     *rand.Rand
	max   int
	err   error // given at the end instead of io.EOF
	calls int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.calls++
	if len(c.data) == 0 {
		if c.err != nil {
			return 0, c.err
		}
		return 0, io.EOF
	}
	n := 1
	if c.max > 1 {
		n = 1 + c.r.Intn(c.max)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	return n, nil
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = "abc,\n\""[r.Intn(6)]
		}
	default:
		for i := range b {
			b[i] = byte(i / 1000)
		}
	}
	return b
}

var tabularSchema = map[string]interface{}{
	"type": "array",
	"items": map[string]interface{}{
		"type": "array",
		"items": []interface{}{
			map[string]interface{}{"title": "a", "type": "string"},
			map[string]interface{}{"title": "b", "type": "integer"},
			map[string]interface{}{"title": "c", "type": "number"},
			map[string]interface{}{"title": "d", "type": "boolean"},
		},
	},
}

func entriesOf(r dsio.EntryReader) (out []interface{}, err error) {
	for i := 0; i < 1000000; i++ {
		e, err := r.ReadEntry()
		if err != nil {
			if err == io.EOF || err.Error() == "EOF" {
				return out, nil
			}
			return out, err
		}
		if e.Key != "" {
			out = append(out, [2]interface{}{e.Key, e.Value})
		} else {
			out = append(out, e.Value)
		}
	}
	return out, fmt.Errorf("no end after %d entries", len(out))
}

// ---- C19: compression ----

func c19(t *T) {
	t.Bound("every known name, 400 other names, random payloads up to 70000 bytes; bodies of 4 formats x 2 compressions")
	names := map[string]string{"gzip": "gzip", "gz": "gzip", "zst": "zstd", "zstd": "zstd"}
	magic := map[string][]byte{"gzip": {0x1f, 0x8b}, "zstd": {0x28, 0xb5, 0x2f, 0xfd}}
	var all []string
	for n := range names {
		all = append(all, n)
	}
	for _, n := range []string{"", "bz2", "GZIP", "Gz", "zip", "gzi", "zs", "zst ", ".gz", "none", "lz4", "br", "deflate", "xz", "tar.gz", "zstandard", "gzip2"} {
		all = append(all, n)
	}
	for i := 0; i < 400; i++ {
		all = append(all, rstr(t.rand))
	}
	for _, n := range all {
		kind, ok := names[n]
		t.Do("name", fmt.Sprintf("%q", n), func() string {
			_, err := compression.ParseFormat(n)
			if (err == nil) != ok {
				return fmt.Sprintf("ParseFormat error %v", err)
			}
			w, err := compression.Compressor(n, &bytes.Buffer{})
			if (err == nil) != ok || (w != nil) != ok {
				return fmt.Sprintf("Compressor gives %v, error %v", w, err)
			}
			rd, err := compression.Decompressor(n, bytes.NewReader(nil))
			if !ok && (err == nil || rd != nil) {
				return fmt.Sprintf("Decompressor gives %v, error %v", rd, err)
			}
			return ""
		})
		if !ok {
			continue
		}
		for i := 0; i < t.N(12, 120); i++ {
			size := []int{0, 1, 100, 5000, 70000}[t.rand.Intn(5)]
			data := randBytes(t.rand, size)
			t.Do("roundtrip", fmt.Sprintf("%s, %d bytes, case %d", n, size, i), func() string {
				var buf bytes.Buffer
				w, err := compression.Compressor(n, &buf)
				if err != nil {
					return err.Error()
				}
				for rest := data; len(rest) > 0; {
					k := 1 + t.rand.Intn(len(rest))
					if _, err := w.Write(rest[:k]); err != nil {
						return err.Error()
					}
					rest = rest[k:]
				}
				if err := w.Close(); err != nil {
					return err.Error()
				}
				if len(data) > 0 && !bytes.HasPrefix(buf.Bytes(), magic[kind]) {
					return fmt.Sprintf("output starts % x, not a %s stream", buf.Bytes()[:4], kind)
				}
				for other, k2 := range names {
					rd, err := compression.Decompressor(other, &chunkReader{data: append([]byte{}, buf.Bytes()...), r: t.rand, max: 3000})
					var got []byte
					if err == nil {
						got, err = ioutil.ReadAll(rd)
						rd.Close()
					}
					if k2 == kind && (err != nil || !bytes.Equal(got, data)) {
						return fmt.Sprintf("decompressing with %q gives %d bytes, error %v", other, len(got), err)
					}
					if k2 != kind && err == nil && len(data) > 0 {
						return fmt.Sprintf("a %s stream decompresses as %q without error", kind, other)
					}
				}
				return ""
			})
		}
	}
	for _, f := range []string{"csv", "json", "ndjson", "cbor"} {
		for _, comp := range []string{"gzip", "gz", "zst", "zstd"} {
			for i := 0; i < t.N(4, 40); i++ {
				var rows []interface{}
				for k := t.rand.Intn(300); k >= 0; k-- {
					rows = append(rows, []interface{}{strings.ReplaceAll(rstr(t.rand), "\n", " "), int64(t.rand.Intn(1000)), float64(t.rand.Intn(1000)) + 0.5, t.rand.Intn(2) == 0})
				}
				t.Do("body", fmt.Sprintf("%s.%s, %d rows, case %d", f, comp, len(rows), i), func() string {
					plain, packed := &bytes.Buffer{}, &bytes.Buffer{}
					for _, x := range []struct {
						b *bytes.Buffer
						c string
					}{{plain, ""}, {packed, comp}} {
						st := &dataset.Structure{Format: f, Compression: x.c, Schema: tabularSchema}
						w, err := dsio.NewEntryWriter(st, x.b)
						if err != nil {
							return err.Error()
						}
						for j, r := range rows {
							if err := w.WriteEntry(dsio.Entry{Index: j, Value: r}); err != nil {
								return err.Error()
							}
						}
						if err := w.Close(); err != nil {
							return err.Error()
						}
					}
					if !bytes.HasPrefix(packed.Bytes(), magic[names[comp]]) {
						return "the body is not compressed"
					}
					rd, err := compression.Decompressor(comp, bytes.NewReader(packed.Bytes()))
					if err != nil {
						return err.Error()
					}
					got, err := ioutil.ReadAll(rd)
					if err != nil || !bytes.Equal(got, plain.Bytes()) {
						return fmt.Sprintf("the compressed body unpacks to %d bytes, error %v; the plain body has %d", len(got), err, plain.Len())
					}
					var es [2][]interface{}
					for k, x := range []struct {
						b []byte
						c string
					}{{plain.Bytes(), ""}, {packed.Bytes(), comp}} {
						st := &dataset.Structure{Format: f, Compression: x.c, Schema: tabularSchema}
						r, err := dsio.NewEntryReader(st, &chunkReader{data: x.b, r: t.rand, max: 700})
						if err != nil {
							return err.Error()
						}
						if es[k], err = entriesOf(r); err != nil {
							return err.Error()
						}
						if err := r.Close(); err != nil {
							return "closing: " + err.Error()
						}
					}
					if !reflect.DeepEqual(es[0], es[1]) || len(es[0]) != len(rows) {
						return fmt.Sprintf("%d rows written, %d read plain, %d read compressed, or not the same", len(rows), len(es[0]), len(es[1]))
					}
					return ""
				})
			}
		}
		t.Do("unknown", f, func() string {
			st := &dataset.Structure{Format: f, Compression: "rar", Schema: tabularSchema}
			if _, err := dsio.NewEntryWriter(st, &bytes.Buffer{}); err == nil {
				return "a writer with an unknown compression is made without error"
			}
			if _, err := dsio.NewEntryReader(st, strings.NewReader("x")); err == nil {
				return "a reader with an unknown compression is made without error"
			}
			return ""
		})
	}
}
