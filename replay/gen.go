package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"time"

	"github.com/qri-io/dataset"
)

var words = []string{"a", "b", "map", "/ipfs/Qm", "x y", "é", "\"q\"", "line\nbreak", "0", "true", "null", ",", "💡", "back\\slash", "<html>&amp;", "\u2028", "qri:0"}

func rstr(r *rand.Rand) string {
	n := 1 + r.Intn(3)
	s := ""
	for i := 0; i < n; i++ {
		s += words[r.Intn(len(words))]
	}
	return s
}

// jsonValue is a random value of the kind encoding/json produces.
func jsonValue(r *rand.Rand, depth int) interface{} {
	k := r.Intn(8)
	if depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	switch k {
	case 0:
		return rstr(r)
	case 1:
		return ""
	case 2:
		return float64(r.Intn(2000)-1000) / 8
	case 3:
		return float64(r.Intn(200) - 100)
	case 4:
		return r.Intn(2) == 0
	case 5:
		return nil
	case 6:
		n := r.Intn(4)
		a := make([]interface{}, 0, n)
		for i := 0; i < n; i++ {
			a = append(a, jsonValue(r, depth-1))
		}
		return a
	default:
		return jsonMap(r, depth-1)
	}
}

func jsonMap(r *rand.Rand, depth int) map[string]interface{} {
	n := r.Intn(4)
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		m[rstr(r)] = jsonValue(r, depth)
	}
	return m
}

var timeT = reflect.TypeOf(time.Time{})
var emptyIface = reflect.TypeOf((*interface{})(nil)).Elem()

// emptyOK lets set slices and maps be empty: set is not the same as non-empty when merging.
var emptyOK bool

// fill sets each exported field with probability p to a random non-zero value.
func fill(r *rand.Rand, v reflect.Value, p float64, depth int) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).PkgPath != "" || r.Float64() >= p {
			continue
		}
		setRandom(r, v.Field(i), p, depth)
	}
}

func setRandom(r *rand.Rand, f reflect.Value, p float64, depth int) {
	switch {
	case f.Type() == timeT:
		f.Set(reflect.ValueOf(time.Unix(1+r.Int63n(2000000000), 0).UTC()))
	case f.Kind() == reflect.String:
		f.SetString(rstr(r))
	case f.Kind() == reflect.Int:
		f.SetInt(int64(r.Intn(100000) - 5000))
	case f.Kind() == reflect.Bool:
		f.SetBool(true)
	case f.Kind() == reflect.Slice:
		if f.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, 1+r.Intn(5))
			if emptyOK && r.Intn(3) == 0 {
				b = []byte{}
			}
			r.Read(b)
			f.SetBytes(b)
			return
		}
		n := 1 + r.Intn(3)
		if emptyOK && r.Intn(3) == 0 {
			n = 0
		}
		s := reflect.MakeSlice(f.Type(), n, n)
		for i := 0; i < n; i++ {
			setRandom(r, s.Index(i), p, depth-1)
		}
		f.Set(s)
	case f.Kind() == reflect.Ptr:
		n := reflect.New(f.Type().Elem())
		fill(r, n.Elem(), p, depth-1)
		f.Set(n)
	case f.Kind() == reflect.Map:
		m := reflect.MakeMap(f.Type())
		n := 1 + r.Intn(3)
		if emptyOK && r.Intn(3) == 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			k := reflect.New(f.Type().Key()).Elem()
			k.SetString([]string{"a", "b", "c", rstr(r)}[r.Intn(4)])
			e := reflect.New(f.Type().Elem()).Elem()
			setRandom(r, e, p, depth-1)
			m.SetMapIndex(k, e)
		}
		f.Set(m)
	case f.Kind() == reflect.Interface && f.Type() == emptyIface:
		v := jsonValue(r, 2)
		if v == nil {
			v = rstr(r)
		}
		f.Set(reflect.ValueOf(v))
	}
}

func randDataset(r *rand.Rand, p float64) *dataset.Dataset {
	ds := &dataset.Dataset{}
	fill(r, reflect.ValueOf(ds).Elem(), p, 4)
	if ds.Meta != nil && r.Float64() < p {
		ds.Meta.SetArbitrary("custom", rstr(r))
	}
	return ds
}

func show(v interface{}) string {
	return clip(dump(reflect.ValueOf(v), 0))
}

func clip(s string) string {
	if len(s) > 3500 {
		return s[:3500] + "..."
	}
	return s
}

// dump prints exported content, following pointers.
func dump(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	if depth > 8 {
		return "..."
	}
	if v.Type() == timeT && v.CanInterface() {
		return v.Interface().(time.Time).Format(time.RFC3339Nano)
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		p := ""
		if v.Kind() == reflect.Ptr {
			p = "&"
		}
		return p + dump(v.Elem(), depth+1)
	case reflect.Struct:
		s := v.Type().Name() + "{"
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" || v.Field(i).IsZero() {
				continue
			}
			s += v.Type().Field(i).Name + ":" + dump(v.Field(i), depth+1) + " "
		}
		return s + "}"
	case reflect.Map:
		if v.IsNil() {
			return "nil"
		}
		if b, err := json.Marshal(v.Interface()); err == nil {
			return string(b)
		}
		return fmt.Sprint(v.Interface())
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%q", v.Bytes())
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += dump(v.Index(i), depth+1) + " "
		}
		return s + "]"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	if v.CanInterface() {
		return fmt.Sprintf("%v", v.Interface())
	}
	return fmt.Sprint(v)
}

// deep copies exported content (unexported fields are left zero).
func deep(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deep(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deep(v.Elem()))
		return n
	case reflect.Struct:
		if v.Type() == timeT {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(deep(v.Field(i)))
			}
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deep(v.MapIndex(k)))
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deep(v.Index(i)))
		}
		return n
	}
	return v
}
