package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func init() {
	props["C14"] = c14
}

// jsonWant is how a value is read from JSON: integers as int64 where they are written as such, everything else as encoding/json does.
func jsonNumber(s string) interface{} {
	if !strings.ContainsAny(s, ".eE") {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
	}
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

func jsonWS(r *rand.Rand, wild bool) string {
	if !wild || r.Intn(3) > 0 {
		return ""
	}
	switch r.Intn(12) {
	case 0:
		return strings.Repeat(" ", r.Intn(5000))
	case 1:
		return "\r\n"
	case 2:
		return "\t \n"
	}
	return " "
}

var jsonNums = []string{"0", "-0", "1", "-1", "10", "1.5", "-2.25", "1e3", "1E-3", "1e+2", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "123456789012345678901234567890", "0.1", "1.7976931348623157e308", "5e-324", "4503599627370497", "0e0", "-0.0", "100000000000000000000000"}

// jsonString writes a random string, in a random choice of escapes, and gives what it stands for.
func jsonString(r *rand.Rand, b *bytes.Buffer, wild bool) string {
	n := []int{0, 1, 2, 3, 5, 8, 20}[r.Intn(7)]
	if wild && r.Intn(300) == 0 {
		n = []int{4090, 4096, 4100, 9000}[r.Intn(4)]
	}
	var out strings.Builder
	b.WriteByte('"')
	for i := 0; i < n; i++ {
		var c rune
		switch r.Intn(9) {
		case 0:
			c = []rune{'"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0x7f, 0, 0x1f}[r.Intn(11)]
		case 1:
			c = []rune{'é', 'ß', '中', 0x2028, 0x2029, 0xfffd, 0xffff, 0x800, 0x7ff, 0x80}[r.Intn(10)]
		case 2:
			c = []rune{'😀', 0x10000, 0x10ffff, '𝄞'}[r.Intn(4)]
		case 3:
			c = []rune{'{', '}', '[', ']', ',', ':', ' ', '<', '&', '\'', 'u', 'x', 'n'}[r.Intn(13)]
		default:
			c = rune('a' + r.Intn(26))
		}
		out.WriteRune(c)
		short := strings.IndexRune("\"\\/\b\f\n\r\t", c)
		switch {
		case short >= 0 && r.Intn(2) == 0:
			b.WriteByte('\\')
			b.WriteByte("\"\\/bfnrt"[short])
		case c < 0x20 || c == '"' || c == '\\' || wild && r.Intn(4) == 0:
			if c >= 0x10000 {
				hi, lo := (c-0x10000)>>10+0xd800, (c-0x10000)&0x3ff+0xdc00
				fmt.Fprintf(b, []string{`\u%04x\u%04x`, `\u%04X\u%04X`}[r.Intn(2)], hi, lo)
			} else {
				fmt.Fprintf(b, []string{`\u%04x`, `\u%04X`}[r.Intn(2)], c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return out.String()
}

func jsonItem(r *rand.Rand, b *bytes.Buffer, depth int, wild bool) interface{} {
	k := r.Intn(9)
	if depth <= 0 && k >= 7 {
		k = r.Intn(7)
	}
	switch k {
	case 0:
		b.WriteString("null")
		return nil
	case 1:
		b.WriteString("true")
		return true
	case 2:
		b.WriteString("false")
		return false
	case 3, 4:
		s := jsonNums[r.Intn(len(jsonNums))]
		if r.Intn(3) == 0 {
			s = strconv.FormatInt(r.Int63()-r.Int63(), 10)
		}
		b.WriteString(s)
		return jsonNumber(s)
	case 5, 6:
		return jsonString(r, b, wild)
	case 7:
		n := []int{0, 1, 2, 3, 8}[r.Intn(5)]
		out := []interface{}{}
		b.WriteString("[" + jsonWS(r, wild))
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString("," + jsonWS(r, wild))
			}
			out = append(out, jsonItem(r, b, depth-1, wild))
			b.WriteString(jsonWS(r, wild))
		}
		b.WriteString("]")
		return out
	}
	n := r.Intn(5)
	out := map[string]interface{}{}
	b.WriteString("{" + jsonWS(r, wild))
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString("," + jsonWS(r, wild))
		}
		k := jsonString(r, b, wild)
		b.WriteString(jsonWS(r, wild) + ":" + jsonWS(r, wild))
		out[k] = jsonItem(r, b, depth-1, wild)
		b.WriteString(jsonWS(r, wild))
	}
	b.WriteString("}")
	return out
}

func jsonStructure(object bool) *dataset.Structure {
	st := cborStructure(object)
	st.Format = "json"
	return st
}

func readJSON(src io.Reader, object bool, size, limit int) ([]dsio.Entry, error) {
	rd, err := dsio.NewJSONReaderSize(jsonStructure(object), src, size)
	if err != nil {
		return nil, err
	}
	var out []dsio.Entry
	for len(out) < limit {
		e, err := rd.ReadEntry()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, e)
	}
	return out, fmt.Errorf("more than %d entries", limit)
}

// jsonNormal is a value as encoding/json reads it, with integers as int64.
func jsonNormal(data []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	var conv func(v interface{}) interface{}
	conv = func(v interface{}) interface{} {
		switch x := v.(type) {
		case json.Number:
			return jsonNumber(string(x))
		case []interface{}:
			for i := range x {
				x[i] = conv(x[i])
			}
		case map[string]interface{}:
			for k := range x {
				x[k] = conv(x[k])
			}
		}
		return v
	}
	return conv(v), nil
}

func jsonGoValue(r *rand.Rand, depth int) interface{} {
	switch r.Intn(10) {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return cborInts[r.Intn(len(cborInts))]
	case 3:
		return -1 - cborInts[r.Intn(len(cborInts))]
	case 4:
		return []interface{}{int(7), int32(-300), uint8(200), uint64(1 << 63), uint64(12), float32(1.5), []string{"a", "\n"}, map[string]int{"z": 1, "a": 2}}[r.Intn(8)]
	case 5:
		for {
			if f := cborFloats[r.Intn(len(cborFloats))]; !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	case 6, 7:
		if depth > 0 {
			out := []interface{}{}
			for i := r.Intn(4); i > 0; i-- {
				out = append(out, jsonGoValue(r, depth-1))
			}
			return out
		}
	case 8:
		if depth > 0 {
			out := map[string]interface{}{}
			for i := r.Intn(4); i > 0; i-- {
				out[cborString(r)] = jsonGoValue(r, depth-1)
			}
			return out
		}
	}
	var b bytes.Buffer
	return jsonString(r, &b, false)
}

func c14(t *T) {
	r := t.rand
	n := t.N(3000, 50000)
	for i := 0; i < n && !t.Over(); i++ {
		object, wild := r.Intn(2) == 0, r.Intn(3) > 0
		var b bytes.Buffer
		count := []int{0, 1, 2, 3, 5, 9}[r.Intn(6)]
		if i%60 == 0 {
			count = 300 + r.Intn(900)
		}
		open, cloze := "[", "]"
		if object {
			open, cloze = "{", "}"
		}
		b.WriteString(jsonWS(r, wild) + open + jsonWS(r, wild))
		var keys []string
		var vals []interface{}
		for k := 0; k < count; k++ {
			if k > 0 {
				b.WriteString("," + jsonWS(r, wild))
			}
			// so that a token starts near the end of a block of the reader
			if wild && r.Intn(40) == 0 {
				for b.Len()%4096 < 4085+r.Intn(10) {
					b.WriteByte(" \n\t\r"[r.Intn(4)])
				}
			}
			key := ""
			if object {
				key = jsonString(r, &b, wild)
				b.WriteString(jsonWS(r, wild) + ":" + jsonWS(r, wild))
			}
			keys = append(keys, key)
			vals = append(vals, jsonItem(r, &b, 2, wild))
			b.WriteString(jsonWS(r, wild))
		}
		b.WriteString(cloze + jsonWS(r, wild))
		data := b.Bytes()
		if wild && r.Intn(4) == 0 {
			// with a space in front of the separators the text may have any length: the same entries
			pad := bytes.Repeat([]byte(" "), r.Intn(4100))
			data = append(pad, data...)
		}
		max := []int{1, 2, 7, 100, 4095, 4096, 1 << 20}[r.Intn(7)]
		if len(data) > 20000 && max < 7 {
			max = 100
		}
		size := []int{16, 100, 4096, 5000, 256 * 1024}[r.Intn(5)]
		t.Do("well-formed body", fmt.Sprintf("object=%v reads of at most %d, buffer %d, %d bytes: %s", object, max, size, len(data), clip(string(bytes.TrimSpace(data)))), func() string {
			es, err := readJSON(&chunkReader{data: data, r: r, max: max}, object, size, count+2)
			if err != nil {
				return fmt.Sprintf("error: %v after %d of %d entries", err, len(es), count)
			}
			return sameEntries(es, keys, vals, object)
		})
		if len(data) > 1 && i%2 == 0 {
			end := bytes.LastIndexAny(data, "]}")
			for _, c := range []int{1 + r.Intn(end), end} {
				t.Do("truncated body", fmt.Sprintf("object=%v first %d bytes of %s", object, c, clip(string(data))), func() string {
					es, err := readJSON(bytes.NewReader(data[:c]), object, size, count+2)
					if err == nil {
						return fmt.Sprintf("read %d entries and the end without an error", len(es))
					}
					return ""
				})
				t.Do("source that fails", fmt.Sprintf("object=%v fails after %d bytes of %s", object, c, clip(string(data))), func() string {
					_, err := readJSON(io.MultiReader(bytes.NewReader(data[:c]), failing{}), object, size, count+2)
					if err == nil {
						return "read to the end without an error"
					}
					return ""
				})
			}
			t.Do("other top level", clip(string(data)), func() string {
				es, err := readJSON(bytes.NewReader(data), !object, size, count+2)
				if err == nil || len(es) > 0 {
					return "an array was read as an object, or the other way round"
				}
				return ""
			})
		}
	}
	// damaged text: an answer without a panic, and no more entries than bytes
	m := t.N(20000, 300000)
	for i := 0; i < m && !t.Over(); i++ {
		object := r.Intn(2) == 0
		var b bytes.Buffer
		if object {
			b.WriteString("{\"k\":")
		} else {
			b.WriteString("[")
		}
		jsonItem(r, &b, 2, false)
		b.WriteString(",")
		jsonItem(r, &b, 2, false)
		b.WriteString("]}")
		data := b.Bytes()
		for k := r.Intn(4); k > 0; k-- {
			at := r.Intn(len(data))
			switch r.Intn(3) {
			case 0:
				data[at] = "{}[],:\"\\u01-ntfx \xff"[r.Intn(18)]
			case 1:
				data = data[:at+1]
			default:
				data = append(data[:at:at], append([]byte(`\u00`), data[at:]...)...)
			}
		}
		t.Do("damaged text", fmt.Sprintf("object=%v %q", object, clip(string(data))), func() string {
			es, _ := readJSON(bytes.NewReader(data), object, 16, 10000)
			if len(es) > len(data) {
				return fmt.Sprintf("%d entries from %d bytes", len(es), len(data))
			}
			return ""
		})
	}
	// written bodies
	w := t.N(2500, 40000)
	for i := 0; i < w && !t.Over(); i++ {
		object := r.Intn(2) == 0
		indent := []string{"", "", "  ", "\t"}[r.Intn(4)]
		count := r.Intn(6)
		if i%60 == 0 {
			count = 200 + r.Intn(400)
		}
		var keys []string
		var list []interface{}
		for k := 0; k < count; k++ {
			key := ""
			if object {
				var b bytes.Buffer
				key = jsonString(r, &b, false) + strconv.Itoa(k)
			}
			keys = append(keys, key)
			list = append(list, jsonGoValue(r, 2))
		}
		t.Do("written body", fmt.Sprintf("object=%v indent %q keys %q values %s", object, indent, keys, clip(fmt.Sprintf("%#v", list))), func() string {
			newWriter := func(w io.Writer) (*dsio.JSONWriter, error) {
				if indent == "" {
					return dsio.NewJSONWriter(jsonStructure(object), w)
				}
				return dsio.NewJSONPrettyWriter(jsonStructure(object), w, indent)
			}
			var out bytes.Buffer
			wr, err := newWriter(&out)
			if err != nil {
				return err.Error()
			}
			bad := -1
			if r.Intn(3) == 0 {
				bad = r.Intn(count + 1)
			}
			for k := 0; k <= count; k++ {
				if k == bad {
					// an entry that cannot be written is an error and changes nothing
					e := dsio.Entry{Key: "\x01bad", Value: []interface{}{make(chan int), math.NaN(), func() {}}[r.Intn(3)]}
					if object && k < count && r.Intn(2) == 0 {
						e.Key = keys[k]
					}
					if err := wr.WriteEntry(e); err == nil {
						return "a value that has no JSON form was accepted"
					}
				}
				if k == count {
					break
				}
				if err := wr.WriteEntry(dsio.Entry{Key: keys[k], Value: list[k]}); err != nil {
					return "writing: " + err.Error()
				}
			}
			if object {
				if err := wr.WriteEntry(dsio.Entry{Value: 1}); err == nil {
					return "an empty key was accepted"
				}
				if count > 0 {
					if err := wr.WriteEntry(dsio.Entry{Key: keys[r.Intn(count)], Value: 1}); err == nil {
						return "a key was accepted twice"
					}
				}
			}
			if err := wr.Close(); err != nil {
				return "closing: " + err.Error()
			}
			data := out.Bytes()
			if !json.Valid(data) {
				return "not JSON: " + clip(string(data))
			}
			var want []interface{}
			for k := range list {
				one, err := json.Marshal(list[k])
				if err != nil {
					return err.Error()
				}
				v, err := jsonNormal(one)
				if err != nil {
					return err.Error()
				}
				want = append(want, v)
			}
			es, err := readJSON(&chunkReader{data: data, r: r, max: 1 + r.Intn(100)}, object, 16+r.Intn(5000), count+2)
			if err != nil {
				return "reading: " + err.Error()
			}
			if d := sameEntries(es, keys, want, object); d != "" {
				return "read back: " + d
			}
			// what another reader makes of it
			other, err := jsonNormal(data)
			if err != nil {
				return err.Error()
			}
			if object {
				mm := map[string]interface{}{}
				for k := range keys {
					mm[keys[k]] = want[k]
				}
				if !sameCBOR(mm, other) {
					return "encoding/json reads something else: " + clip(fmt.Sprint(other))
				}
			} else if want == nil {
				if !reflect.DeepEqual(other, []interface{}{}) {
					return "no entries are not an empty array"
				}
			} else if !sameCBOR(want, other) {
				return "encoding/json reads something else: " + clip(fmt.Sprint(other))
			}
			cut := r.Intn(len(data))
			wr, err = newWriter(&cutWriter{left: cut})
			if err != nil {
				return err.Error()
			}
			for k := range list {
				if err := wr.WriteEntry(dsio.Entry{Key: keys[k], Value: list[k]}); err != nil {
					return ""
				}
			}
			if err := wr.Close(); err == nil {
				return fmt.Sprintf("a sink that failed after %d of %d bytes was not reported", cut, len(data))
			}
			return ""
		})
	}
	// a long string met in the middle of many blocks
	for i := 0; i < t.N(20, 200) && !t.Over(); i++ {
		s := strings.Repeat([]string{"a", "é", "\\", "\"", "\n", "😀"}[r.Intn(6)], 1000+r.Intn(30000))
		if !utf8.ValidString(s) {
			continue
		}
		one, _ := json.Marshal(s)
		data := []byte("[" + strings.Repeat(" ", r.Intn(9000)) + string(one) + strings.Repeat("\n", r.Intn(9000)) + ",1]")
		size := 16 + r.Intn(9000)
		t.Do("long string", fmt.Sprintf("%d bytes, buffer %d", len(data), size), func() string {
			es, err := readJSON(&chunkReader{data: data, r: r, max: 1 + r.Intn(5000)}, false, size, 4)
			if err != nil {
				return err.Error()
			}
			return sameEntries(es, nil, []interface{}{s, int64(1)}, false)
		})
	}
	t.Bound("%d bodies of up to 1200 entries with every escape, number form and spacing, cut and failing at two places; %d damaged texts; %d written bodies, plain and indented", n, m, w)
}
