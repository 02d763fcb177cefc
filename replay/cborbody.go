package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"sort"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/ugorji/go/codec"
)

func init() {
	props["C15"] = c15
}

// cborHead writes the head of an item of a major type with an argument, in the shortest width at least min bytes wide.
func cborHead(b *bytes.Buffer, major byte, n uint64, min int) {
	m := major << 5
	switch {
	case n < 24 && min == 0:
		b.WriteByte(m | byte(n))
	case n < 1<<8 && min <= 1:
		b.WriteByte(m | 24)
		b.WriteByte(byte(n))
	case n < 1<<16 && min <= 2:
		b.WriteByte(m | 25)
		binary.Write(b, binary.BigEndian, uint16(n))
	case n < 1<<32 && min <= 4:
		b.WriteByte(m | 26)
		binary.Write(b, binary.BigEndian, uint32(n))
	default:
		b.WriteByte(m | 27)
		binary.Write(b, binary.BigEndian, n)
	}
}

var cborInts = []int64{0, 1, 10, 23, 24, 25, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 1000000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 53, math.MaxInt64, math.MaxInt64 - 1}
var cborFloats = []float64{0, 1, -1, 0.5, 1.5, 65504, -4, 3.4028234663852886e38, 1e300, -4.1, 5.960464477539063e-8, 6.103515625e-05, math.Inf(1), math.Inf(-1), math.NaN(), 100000, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64}

func width(r *rand.Rand, wild bool) int {
	if !wild {
		return 0
	}
	return []int{0, 0, 0, 1, 2, 4, 8}[r.Intn(7)]
}

// half gives the half-precision bits of f when f has such a form.
func half(f float64) (uint16, bool) {
	for h := 0; h < 1<<16; h++ {
		e, m := h>>10&31, float64(h&1023)
		var v float64
		switch e {
		case 0:
			v = math.Ldexp(m, -24)
		case 31:
			if h&1023 != 0 {
				continue
			}
			v = math.Inf(1)
		default:
			v = math.Ldexp(m+1024, e-25)
		}
		if h&0x8000 != 0 {
			v = -v
		}
		if v == f && math.Signbit(v) == math.Signbit(f) {
			return uint16(h), true
		}
	}
	return 0, false
}

var halves = map[float64]uint16{}

func init() {
	for _, f := range cborFloats {
		if h, ok := half(f); ok {
			halves[f] = h
		}
	}
}

func cborString(r *rand.Rand) string {
	n := []int{0, 1, 3, 22, 23, 24, 25, 40, 255, 256, 300}[r.Intn(11)]
	if r.Intn(3) > 0 {
		return rstr(r)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.Intn(26))
	}
	return string(b)
}

// cborItem writes a random item in a random encoding and gives the value it stands for.
func cborItem(r *rand.Rand, b *bytes.Buffer, depth int, wild bool) interface{} {
	if wild && r.Intn(12) == 0 {
		cborHead(b, 6, uint64([]int{0, 1, 2, 32, 55799, 24}[r.Intn(6)]), width(r, wild))
	}
	k := r.Intn(10)
	if depth <= 0 && k >= 8 {
		k = r.Intn(8)
	}
	switch k {
	case 0:
		b.WriteByte(0xf6)
		return nil
	case 1:
		v := r.Intn(2) == 0
		if v {
			b.WriteByte(0xf5)
		} else {
			b.WriteByte(0xf4)
		}
		return v
	case 2:
		n := cborInts[r.Intn(len(cborInts))]
		cborHead(b, 0, uint64(n), width(r, wild))
		return n
	case 3:
		n := cborInts[r.Intn(len(cborInts))]
		cborHead(b, 1, uint64(n), width(r, wild))
		return -1 - n
	case 4:
		n := uint64(1)<<63 | uint64(r.Int63())
		cborHead(b, 0, n, 0)
		return n
	case 5:
		f := cborFloats[r.Intn(len(cborFloats))]
		if h, ok := halves[f]; ok && wild && r.Intn(2) == 0 {
			b.WriteByte(0xf9)
			binary.Write(b, binary.BigEndian, h)
			return f
		}
		if wild && float64(float32(f)) == f && r.Intn(2) == 0 {
			b.WriteByte(0xfa)
			binary.Write(b, binary.BigEndian, math.Float32bits(float32(f)))
			return f
		}
		b.WriteByte(0xfb)
		binary.Write(b, binary.BigEndian, math.Float64bits(f))
		return f
	case 6, 7:
		s, isBytes := cborString(r), r.Intn(4) == 0
		major := byte(3)
		if isBytes {
			major = 2
		}
		if wild && r.Intn(3) == 0 {
			b.WriteByte(major<<5 | 31)
			for at := 0; at < len(s); {
				n := 1 + r.Intn(len(s)-at)
				cborHead(b, major, uint64(n), width(r, wild))
				b.WriteString(s[at : at+n])
				at += n
			}
			b.WriteByte(0xff)
		} else {
			cborHead(b, major, uint64(len(s)), width(r, wild))
			b.WriteString(s)
		}
		if isBytes {
			return []byte(s)
		}
		return s
	case 8:
		n := []int{0, 1, 2, 3, 23, 24, 30}[r.Intn(7)]
		indef := wild && r.Intn(3) == 0
		if indef {
			b.WriteByte(0x9f)
		} else {
			cborHead(b, 4, uint64(n), width(r, wild))
		}
		out := make([]interface{}, 0)
		for i := 0; i < n; i++ {
			d := depth - 1
			if n > 3 {
				d = 0
			}
			out = append(out, cborItem(r, b, d, wild))
		}
		if indef {
			b.WriteByte(0xff)
		}
		return out
	}
	n := r.Intn(5)
	indef := wild && r.Intn(3) == 0
	if indef {
		b.WriteByte(0xbf)
	} else {
		cborHead(b, 5, uint64(n), width(r, wild))
	}
	out := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("%d%s", i, cborString(r))
		cborHead(b, 3, uint64(len(k)), width(r, wild))
		b.WriteString(k)
		out[k] = cborItem(r, b, depth-1, wild)
	}
	if indef {
		b.WriteByte(0xff)
	}
	return out
}

// sameCBOR compares an expected value with one that was read; an empty byte string may be read as nil.
func sameCBOR(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y && math.Signbit(x) == math.Signbit(y) || math.IsNaN(x) && math.IsNaN(y))
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameCBOR(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !sameCBOR(x[k], v) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// cborWant is a value as it is read after it was written: integers as int64 where they fit, and as uint64 otherwise.
func cborWant(v interface{}) interface{} {
	switch x := v.(type) {
	case int:
		return int64(x)
	case int32:
		return int64(x)
	case uint8:
		return int64(x)
	case float32:
		return float64(x)
	case uint64:
		if x <= math.MaxInt64 {
			return int64(x)
		}
	case []interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = cborWant(x[i])
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k := range x {
			out[k] = cborWant(x[k])
		}
		return out
	}
	return v
}

func cborGoValue(r *rand.Rand, depth int) interface{} {
	switch r.Intn(10) {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return cborInts[r.Intn(len(cborInts))]
	case 3:
		return -1 - cborInts[r.Intn(len(cborInts))]
	case 4:
		return []interface{}{int(7), int32(-300), uint8(200), uint64(1 << 63), uint64(12), float32(1.5)}[r.Intn(6)]
	case 5:
		return cborFloats[r.Intn(len(cborFloats))]
	case 6:
		return []byte("b" + cborString(r))
	case 7:
		if depth > 0 {
			out := []interface{}{}
			for i := r.Intn(4); i > 0; i-- {
				out = append(out, cborGoValue(r, depth-1))
			}
			return out
		}
	case 8:
		if depth > 0 {
			out := map[string]interface{}{}
			for i := r.Intn(4); i > 0; i-- {
				out[cborString(r)] = cborGoValue(r, depth-1)
			}
			return out
		}
	}
	return cborString(r)
}

func cborStructure(object bool) *dataset.Structure {
	st := &dataset.Structure{Format: "cbor", Schema: dataset.BaseSchemaArray}
	if object {
		st.Schema = dataset.BaseSchemaObject
	}
	return st
}

// readCBOR reads every entry, up to the end or an error (io.EOF is reported as none).
func readCBOR(src io.Reader, object bool, limit int) ([]dsio.Entry, error) {
	rd, err := dsio.NewCBORReader(cborStructure(object), src)
	if err != nil {
		return nil, err
	}
	var out []dsio.Entry
	for len(out) < limit {
		e, err := rd.ReadEntry()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, e)
	}
	return out, fmt.Errorf("more than %d entries", limit)
}

func sameEntries(es []dsio.Entry, keys []string, vals []interface{}, object bool) string {
	if len(es) != len(vals) {
		return fmt.Sprintf("%d entries in place of %d", len(es), len(vals))
	}
	for i, e := range es {
		if object && e.Key != keys[i] || !object && e.Index != i {
			return fmt.Sprintf("entry %d has key %q and index %d", i, e.Key, e.Index)
		}
		if !sameCBOR(vals[i], e.Value) {
			return fmt.Sprintf("entry %d is %s, want %s", i, clip(fmt.Sprintf("%T %#v", e.Value, e.Value)), clip(fmt.Sprintf("%T %#v", vals[i], vals[i])))
		}
	}
	return ""
}

func hx(b []byte) string { return clip(hex.EncodeToString(b)) }

func c15(t *T) {
	r := t.rand
	// well-formed bodies in every encoding, from sources that give few bytes at a time, and cut anywhere
	n := t.N(2500, 40000)
	for i := 0; i < n && !t.Over(); i++ {
		object, wild := r.Intn(2) == 0, r.Intn(3) > 0
		var b bytes.Buffer
		count := []int{0, 1, 2, 3, 5, 23, 24, 40, 260}[r.Intn(9)]
		if i%50 != 0 && count > 24 {
			count = r.Intn(5)
		}
		indef := wild && r.Intn(3) == 0
		major := byte(4)
		if object {
			major = 5
		}
		if indef {
			b.WriteByte(major<<5 | 31)
		} else {
			cborHead(&b, major, uint64(count), width(r, wild))
		}
		var keys []string
		var vals []interface{}
		for k := 0; k < count; k++ {
			key := ""
			if object {
				key = fmt.Sprintf("k%d%s", k, cborString(r))
				cborHead(&b, 3, uint64(len(key)), width(r, wild))
				b.WriteString(key)
			}
			keys = append(keys, key)
			vals = append(vals, cborItem(r, &b, 2, wild))
		}
		if indef {
			b.WriteByte(0xff)
		}
		data := b.Bytes()
		max := []int{1, 2, 3, 100, 4096, 1 << 20}[r.Intn(6)]
		t.Do("well-formed body", fmt.Sprintf("object=%v reads of at most %d: %s", object, max, hx(data)), func() string {
			es, err := readCBOR(&chunkReader{data: data, r: r, max: max}, object, count+2)
			if err != nil {
				return fmt.Sprintf("error: %v after %d of %d entries", err, len(es), count)
			}
			return sameEntries(es, keys, vals, object)
		})
		if len(data) > 1 {
			cuts := []int{1, len(data) - 1, 1 + r.Intn(len(data)-1)}
			for _, c := range cuts {
				t.Do("truncated body", fmt.Sprintf("object=%v first %d bytes of %s", object, c, hx(data)), func() string {
					es, err := readCBOR(&chunkReader{data: data[:c], r: r, max: max}, object, count+2)
					if err == nil {
						return fmt.Sprintf("read %d entries and the end without an error", len(es))
					}
					if len(es) > count {
						return "more entries than there are"
					}
					return sameEntries(es, keys[:len(es)], vals[:len(es)], object)
				})
				t.Do("source that fails", fmt.Sprintf("object=%v fails after %d bytes of %s", object, c, hx(data)), func() string {
					es, err := readCBOR(io.MultiReader(bytes.NewReader(data[:c]), failing{}), object, count+2)
					if err == nil {
						return fmt.Sprintf("read %d entries and the end without an error", len(es))
					}
					return ""
				})
			}
			t.Do("other top level", hx(data), func() string {
				es, err := readCBOR(bytes.NewReader(data), !object, count+2)
				if err == nil || len(es) > 0 {
					return "an array was read as an object, or the other way round"
				}
				return ""
			})
		}
	}
	// arbitrary bytes: an answer, and no more entries than bytes
	m := t.N(20000, 300000)
	for i := 0; i < m && !t.Over(); i++ {
		data := randBytes(r, r.Intn(40))
		if len(data) > 0 && r.Intn(2) == 0 {
			data[0] = []byte{0x80, 0x9f, 0xa0, 0xbf, 0x81, 0xa1, 0x9b, 0xbb, 0x98}[r.Intn(9)]
		}
		if len(data) > 3 && r.Intn(2) == 0 {
			data[1+r.Intn(len(data)-2)] = []byte{0x5f, 0x7f, 0x9f, 0xbf, 0xff, 0x5b, 0x7b, 0x9b, 0xbb, 0xf9, 0xc0, 0xdb, 0x1c, 0x3c, 0x3b, 0xf7, 0xf8}[r.Intn(17)]
		}
		object := r.Intn(2) == 0
		t.Do("arbitrary bytes", fmt.Sprintf("object=%v %s", object, hx(data)), func() string {
			es, _ := readCBOR(bytes.NewReader(data), object, 10000)
			if len(es) > len(data) {
				return fmt.Sprintf("%d entries from %d bytes", len(es), len(data))
			}
			return ""
		})
	}
	// what is written: one item that another decoder reads as the same, in an order of its own, and read back the same
	w := t.N(2500, 40000)
	for i := 0; i < w && !t.Over(); i++ {
		object := r.Intn(2) == 0
		count := r.Intn(6)
		if i%40 == 0 {
			count = 20 + r.Intn(300)
		}
		var keys []string
		vals := map[string]interface{}{}
		var list []interface{}
		for k := 0; k < count; k++ {
			v := cborGoValue(r, 2)
			key := fmt.Sprintf("%s%d", cborString(r), k)
			keys = append(keys, key)
			vals[key] = v
			list = append(list, v)
		}
		write := func(perm []int) ([]byte, error) {
			var b bytes.Buffer
			wr, err := dsio.NewCBORWriter(cborStructure(object), &b)
			if err != nil {
				return nil, err
			}
			for _, k := range perm {
				e := dsio.Entry{Index: k, Value: list[k]}
				if object {
					e.Key = keys[k]
				}
				if err := wr.WriteEntry(e); err != nil {
					return nil, err
				}
			}
			err = wr.Close()
			return b.Bytes(), err
		}
		id := make([]int, count)
		for k := range id {
			id[k] = k
		}
		perm := id
		if object {
			perm = r.Perm(count)
		}
		t.Do("written body", fmt.Sprintf("object=%v keys %q values %s", object, keys, clip(fmt.Sprintf("%#v", list))), func() string {
			data, err := write(id)
			if err != nil {
				return "writing: " + err.Error()
			}
			again, err := write(perm)
			if err != nil {
				return "writing again: " + err.Error()
			}
			if !bytes.Equal(data, again) {
				return fmt.Sprintf("the same entries gave other bytes: %s and %s", hx(data), hx(again))
			}
			es, err := readCBOR(&chunkReader{data: data, r: r, max: 1 + r.Intn(20)}, object, count+2)
			if err != nil {
				return "reading: " + err.Error()
			}
			want := list
			wkeys := keys
			if object {
				// in the order of the bytes of the keys
				wkeys = append([]string{}, keys...)
				got := map[string]int{}
				for j, e := range es {
					got[e.Key] = j
				}
				if len(got) != len(keys) {
					return fmt.Sprintf("%d keys read of %d", len(got), len(keys))
				}
				sort.SliceStable(wkeys, func(a, b int) bool { return got[wkeys[a]] < got[wkeys[b]] })
				want = nil
				for _, k := range wkeys {
					want = append(want, vals[k])
				}
			}
			ws := make([]interface{}, len(want))
			for j := range want {
				ws[j] = cborWant(want[j])
			}
			if d := sameEntries(es, wkeys, ws, object); d != "" {
				return "read back: " + d
			}
			var other interface{}
			h := &codec.CborHandle{}
			h.MapType = reflect.TypeOf(map[string]interface{}{})
			h.SignedInteger = false
			if err := codec.NewDecoderBytes(data, h).Decode(&other); err != nil {
				return "another decoder: " + err.Error()
			}
			switch o := other.(type) {
			case []interface{}:
				if object || len(o) != count {
					return "another decoder reads something else"
				}
			case map[string]interface{}:
				if !object || len(o) != count {
					return "another decoder reads something else"
				}
			default:
				return fmt.Sprintf("another decoder reads a %T", other)
			}
			if object && count > 0 {
				wr, _ := dsio.NewCBORWriter(cborStructure(true), &bytes.Buffer{})
				if err := wr.WriteEntry(dsio.Entry{Value: 1}); err == nil {
					return "an empty key was accepted"
				}
				for j, k := range keys {
					wr.WriteEntry(dsio.Entry{Key: k, Value: []interface{}{1, nil, "", false}[(i+j)%4]})
				}
				if err := wr.WriteEntry(dsio.Entry{Key: keys[r.Intn(count)], Value: 2}); err == nil {
					return "a key was accepted twice"
				}
			}
			// a sink that fails
			if len(data) > 0 {
				cut := r.Intn(len(data))
				wr, err := dsio.NewCBORWriter(cborStructure(object), &cutWriter{left: cut})
				if err != nil {
					return err.Error()
				}
				for k := range list {
					if err := wr.WriteEntry(dsio.Entry{Key: keys[k], Value: list[k]}); err != nil {
						return ""
					}
				}
				if err := wr.Close(); err == nil {
					return fmt.Sprintf("a sink that failed after %d of %d bytes was not reported", cut, len(data))
				}
			}
			return ""
		})
	}
	t.Bound("%d bodies of up to 260 entries in every encoding of RFC 8949 for these values, each also cut and failing at three places; %d arbitrary byte strings of up to 40 bytes; %d written bodies", n, m, w)
}

type failing struct{}

func (failing) Read(p []byte) (int, error) { return 0, fmt.Errorf("the source failed") }
