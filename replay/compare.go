package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/vals"
)

func init() {
	props["C33"] = checkC33
	props["C29"] = checkC29
}

// ---- C33 ----

type comparable33 struct {
	name string
	mk   func() interface{}
	cmp  func(a, b interface{}) bool
}

var comparables = []comparable33{
	{"Transform", func() interface{} { return &dataset.Transform{} }, func(a, b interface{}) bool {
		return a.(*dataset.Transform).ShallowCompare(b.(*dataset.Transform))
	}},
	{"Viz", func() interface{} { return &dataset.Viz{} }, func(a, b interface{}) bool {
		return a.(*dataset.Viz).ShallowCompare(b.(*dataset.Viz))
	}},
	{"Readme", func() interface{} { return &dataset.Readme{} }, func(a, b interface{}) bool {
		return a.(*dataset.Readme).ShallowCompare(b.(*dataset.Readme))
	}},
}

// want33 is the rule: every exported field but Path is the same.
func want33(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsNil() || vb.IsNil() {
		return va.IsNil() && vb.IsNil()
	}
	for i := 0; i < va.Elem().NumField(); i++ {
		f := va.Elem().Type().Field(i)
		if f.PkgPath != "" || f.Name == "Path" {
			continue
		}
		if !reflect.DeepEqual(va.Elem().Field(i).Interface(), vb.Elem().Field(i).Interface()) {
			return false
		}
	}
	return true
}

func checkC33(t *T) {
	t.Bound("%d random pairs of each of three components, each pair equal but for at most two fields, and nils", t.N(600, 6000))
	for _, c := range comparables {
		c := c
		check := func(key string, a, b interface{}) {
			t.Do(c.name+" "+key, show(a)+" / "+show(b), func() string {
				before := dd(a) + dd(b)
				want := want33(a, b)
				if got := c.cmp(a, b); got != want {
					return fmt.Sprintf("ShallowCompare says %t, the fields say %t", got, want)
				}
				if got := c.cmp(b, a); got != want {
					return fmt.Sprintf("the other way round ShallowCompare says %t, the fields say %t", got, want)
				}
				if dd(a)+dd(b) != before {
					return "comparing changed a component"
				}
				return ""
			})
		}
		null := reflect.Zero(reflect.TypeOf(c.mk())).Interface()
		check("nil/nil", null, null)
		check("nil/empty", null, c.mk())
		check("empty/empty", c.mk(), c.mk())
		n := reflect.TypeOf(c.mk()).Elem().NumField()
		for i := 0; i < t.N(600, 6000); i++ {
			seed := t.rand.Int63()
			a, b := c.mk(), c.mk()
			fillSame(seed, a)
			fillSame(seed, b)
			key := "same"
			for k := t.rand.Intn(3); k > 0; k-- {
				j := t.rand.Intn(n)
				f := reflect.TypeOf(a).Elem().Field(j)
				if f.PkgPath != "" {
					continue
				}
				other := c.mk()
				fillSame(t.rand.Int63(), other)
				reflect.ValueOf(b).Elem().Field(j).Set(reflect.ValueOf(other).Elem().Field(j))
				key += " " + f.Name
			}
			check(key, a, b)
			if i%10 == 0 {
				check("nil/full", null, a)
				check("self", a, a)
			}
		}
	}
}

// ---- C29 ----

func sign(less, more bool) int {
	if less {
		return -1
	}
	if more {
		return 1
	}
	return 0
}

func checkC29(t *T) {
	t.Bound("%d random pairs of texts and values", t.N(3000, 60000))
	texts := []string{"", "0", "1", "-1", "10", "9", "2", "1.5", "1.50", "-0.25", "1e3", "1000", "abc", "abd", "ab", "z", "true",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "9007199254740992", "9007199254740993", "+5", "05", " 1", "é", "\x00", "0x10", "1_000"}
	pick := func() string {
		switch t.rand.Intn(4) {
		case 0:
			return strconv.FormatInt(t.rand.Int63()-t.rand.Int63(), 10)
		case 1:
			return rstr(t.rand)
		}
		return texts[t.rand.Intn(len(texts))]
	}
	types := []vals.Type{vals.TypeUnknown, vals.TypeNull, vals.TypeInteger, vals.TypeNumber, vals.TypeBoolean, vals.TypeString, vals.TypeObject, vals.TypeArray}
	for i := 0; i < t.N(3000, 60000); i++ {
		a, b := pick(), pick()
		if t.rand.Intn(5) == 0 {
			b = a
		}
		ty := types[t.rand.Intn(len(types))]
		if n, err := strconv.ParseInt(a, 10, 64); err == nil && t.rand.Intn(2) == 0 {
			b = strconv.FormatInt(n+int64(t.rand.Intn(3)-1), 10) // a neighbour
			if t.rand.Intn(2) == 0 {
				ty = vals.TypeInteger
			}
		} else if t.rand.Intn(4) == 0 && a != "" { // one text begins with the other
			b = a[:t.rand.Intn(len(a))]
			if t.rand.Intn(2) == 0 {
				a, b, ty = b, a, vals.TypeString
			}
		}
		t.Do("compare "+ty.String(), fmt.Sprintf("%q %q", clip(a), clip(b)), func() string {
			want, bad := 0, false
			switch {
			case a == "" || b == "":
				want = sign(len(a) < len(b), len(a) > len(b))
			case ty == vals.TypeString:
				want = strings.Compare(a, b)
			case ty == vals.TypeInteger:
				x, e1 := strconv.ParseInt(a, 10, 64)
				y, e2 := strconv.ParseInt(b, 10, 64)
				bad = e1 != nil || e2 != nil
				want = sign(x < y, x > y)
			case ty == vals.TypeNumber:
				x, e1 := strconv.ParseFloat(a, 64)
				y, e2 := strconv.ParseFloat(b, 64)
				if math.IsNaN(x) || math.IsNaN(y) {
					return ""
				}
				bad = e1 != nil || e2 != nil
				want = sign(x < y, x > y)
			default:
				bad = true
			}
			got, err := vals.CompareTypeBytes([]byte(a), []byte(b), ty)
			if (err != nil) != bad {
				return fmt.Sprintf("CompareTypeBytes gives error %v, expected an error: %t", err, bad)
			}
			if err == nil && got != want {
				return fmt.Sprintf("CompareTypeBytes gives %d, want %d", got, want)
			}
			return ""
		})
		t.Do("parse "+ty.String(), fmt.Sprintf("%q", clip(a)), func() string {
			got, err := ty.Parse([]byte(a))
			var want interface{}
			var werr error
			switch ty {
			case vals.TypeString:
				want = a
			case vals.TypeInteger:
				want, werr = strconv.ParseInt(a, 10, 64)
			case vals.TypeNumber:
				want, werr = strconv.ParseFloat(a, 64)
			case vals.TypeBoolean:
				want, werr = strconv.ParseBool(a)
			case vals.TypeArray, vals.TypeObject:
				return ""
			default:
				werr = fmt.Errorf("no such type")
			}
			if (err != nil) != (werr != nil) {
				return fmt.Sprintf("Parse gives error %v, want %v", err, werr)
			}
			if err == nil && !sameNum(got, want) && !reflect.DeepEqual(got, want) {
				return fmt.Sprintf("Parse gives %T %v, want %T %v", got, got, want, want)
			}
			return ""
		})
		values := []interface{}{a, t.rand.Int() - t.rand.Int(), t.rand.Intn(2) == 0, t.rand.NormFloat64(), nil, int64(4)}
		v := values[t.rand.Intn(len(values))]
		t.Do("text "+ty.String(), fmt.Sprintf("%T %v", v, v), func() string {
			want, bad := "", true
			switch ty {
			case vals.TypeString:
				s, ok := v.(string)
				want, bad = s, !ok
			case vals.TypeInteger:
				n, ok := v.(int)
				want, bad = strconv.Itoa(n), !ok
			case vals.TypeBoolean:
				x, ok := v.(bool)
				want, bad = strconv.FormatBool(x), !ok
			case vals.TypeNumber:
				f, ok := v.(float64)
				if !ok {
					break
				}
				s, err := ty.ValueToString(v)
				if back, e := strconv.ParseFloat(s, 64); err != nil || e != nil || back != f {
					return fmt.Sprintf("text of the number is %q, %v", s, err)
				}
				return ""
			case vals.TypeObject, vals.TypeArray:
				return ""
			}
			s, err := ty.ValueToString(v)
			d, err2 := ty.ValueToBytes(v)
			if (err != nil) != bad || (err2 != nil) != bad {
				return fmt.Sprintf("ValueToString gives error %v, ValueToBytes %v, expected an error: %t", err, err2, bad)
			}
			if !bad && (s != want || string(d) != want) {
				return fmt.Sprintf("text is %q, bytes %q, want %q", s, d, want)
			}
			return ""
		})
		x, y := value29(t, 2), value29(t, 2)
		t.Do("equal", fmt.Sprintf("%#v %#v", x, y), func() string {
			want := x.Type() == y.Type()
			if want {
				switch x.Type() {
				case vals.TypeNumber:
					want = x.Number() == y.Number()
				case vals.TypeInteger:
					want = x.Integer() == y.Integer()
				case vals.TypeBoolean:
					want = x.Boolean() == y.Boolean()
				case vals.TypeString:
					want = x.String() == y.String()
				case vals.TypeNull:
				default:
					want = reflect.DeepEqual(x, y)
				}
			}
			if got := vals.Equal(x, y); got != want {
				return fmt.Sprintf("Equal says %t, want %t", got, want)
			}
			if !vals.Equal(x, x) || !vals.Equal(y, y) {
				return "a value is not equal to itself"
			}
			return ""
		})
	}
}

func value29(t *T, depth int) vals.Value {
	k := 7
	if depth == 0 {
		k = 5
	}
	switch t.rand.Intn(k) {
	case 0:
		return vals.String([]string{"", "a", "b", "1"}[t.rand.Intn(4)])
	case 1:
		return vals.Integer(t.rand.Intn(3))
	case 2:
		return vals.Number(float64(t.rand.Intn(4)) / 2)
	case 3:
		return vals.Boolean(t.rand.Intn(2) == 0)
	case 4:
		return vals.Null(true)
	case 5:
		a := vals.Array{}
		for n := t.rand.Intn(3); n > 0; n-- {
			a = append(a, value29(t, depth-1))
		}
		return a
	}
	o := vals.Object{}
	for n := t.rand.Intn(3); n > 0; n-- {
		o[[]string{"x", "y"}[t.rand.Intn(2)]] = value29(t, depth-1)
	}
	return o
}

// fillSame fills a component with random content: the same for the same seed.
func fillSame(seed int64, v interface{}) {
	fill(rand.New(rand.NewSource(seed)), reflect.ValueOf(v).Elem(), 0.6, 2)
}
