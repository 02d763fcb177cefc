package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/vals"
	"github.com/qri-io/qfs"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
	props["C04"] = c04
	props["C05"] = c05
	props["C06"] = c06
	props["C07"] = c07
	props["C08"] = c08
	props["C09"] = c09
	props["C10"] = c10
	props["C11"] = c11
	props["C26"] = c26
}

// ---- C01 / C02: merge ----

// mergeStruct is the reference merge of exported fields: a set field of the later layer wins.
func mergeStruct(dst, src reflect.Value, mapKeys ...string) {
	t := dst.Type()
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).PkgPath != "" {
			continue
		}
		s := src.Field(i)
		unset := s.IsZero()
		if s.Type() == timeT {
			unset = s.Interface().(time.Time).IsZero()
		}
		if unset {
			continue
		}
		merged := false
		for _, k := range mapKeys {
			if t.Field(i).Name == k {
				m := reflect.MakeMap(s.Type())
				for _, kk := range dst.Field(i).MapKeys() {
					m.SetMapIndex(kk, dst.Field(i).MapIndex(kk))
				}
				for _, kk := range s.MapKeys() {
					m.SetMapIndex(kk, s.MapIndex(kk))
				}
				dst.Field(i).Set(m)
				merged = true
			}
		}
		if !merged {
			dst.Field(i).Set(s)
		}
	}
}

var tfMaps = []string{"Config", "Resources", "Secrets"}

func refMergeDataset(dst, src *dataset.Dataset) {
	d, s := reflect.ValueOf(dst).Elem(), reflect.ValueOf(src).Elem()
	for i := 0; i < d.NumField(); i++ {
		f := d.Type().Field(i)
		if f.PkgPath != "" || f.Name == "Qri" || f.Name == "NumVersions" {
			continue
		}
		if f.Name == "ID" {
			if dst.ID == "" {
				dst.ID = src.ID
			}
			continue
		}
		if f.Type.Kind() == reflect.Ptr {
			if s.Field(i).IsNil() {
				continue
			}
			n := reflect.New(f.Type.Elem())
			if !d.Field(i).IsNil() {
				mergeStruct(n.Elem(), d.Field(i).Elem())
			}
			if f.Name == "Transform" {
				mergeStruct(n.Elem(), s.Field(i).Elem(), tfMaps...)
			} else {
				mergeStruct(n.Elem(), s.Field(i).Elem())
			}
			d.Field(i).Set(n)
			continue
		}
		if !s.Field(i).IsZero() {
			d.Field(i).Set(s.Field(i))
		}
	}
}

func layers(r *rand.Rand, n int, p float64) []*dataset.Dataset {
	var ls []*dataset.Dataset
	for i := 0; i < n; i++ {
		if r.Intn(6) == 0 {
			ls = append(ls, nil)
			continue
		}
		ls = append(ls, randDataset(r, p))
	}
	return ls
}

func dd(v interface{}) string { return dump(reflect.ValueOf(v), 0) }

func c01(t *T) {
	emptyOK = true
	t.Bound("random targets and up to 4 random layers, every exported field set with probability 0.1 to 0.9")
	n := t.N(3000, 30000)
	for i := 0; i < n && !t.Over(); i++ {
		r := t.rand
		p := []float64{0.1, 0.3, 0.6, 0.9}[r.Intn(4)]
		tgt := randDataset(r, p)
		if r.Intn(3) == 0 {
			tgt = &dataset.Dataset{}
		}
		ls := layers(r, 1+r.Intn(4), p)
		in := "target " + show(tgt) + "\nlayers " + show(ls)
		t.Do("dataset", in, func() string {
			want := deep(reflect.ValueOf(tgt)).Interface().(*dataset.Dataset)
			for _, l := range ls {
				if l != nil {
					refMergeDataset(want, l)
				}
			}
			got := deep(reflect.ValueOf(tgt)).Interface().(*dataset.Dataset)
			got.Assign(ls...)
			if g, w := dd(got), dd(want); g != w {
				return "merged dataset\n got " + g + "\nwant " + w
			}
			return ""
		})
		compMerge(t, r, p)
	}
}

// compMerge merges single components of every kind.
func compMerge(t *T, r *rand.Rand, p float64) {
	mk := map[string]reflect.Type{
		"commit": reflect.TypeOf(dataset.Commit{}), "meta": reflect.TypeOf(dataset.Meta{}), "structure": reflect.TypeOf(dataset.Structure{}),
		"transform": reflect.TypeOf(dataset.Transform{}), "readme": reflect.TypeOf(dataset.Readme{}), "viz": reflect.TypeOf(dataset.Viz{}), "stats": reflect.TypeOf(dataset.Stats{}),
	}
	names := []string{"commit", "meta", "structure", "transform", "readme", "viz", "stats"}
	for _, name := range names {
		ty := mk[name]
		one := func() reflect.Value {
			v := reflect.New(ty)
			fill(r, v.Elem(), p, 3)
			return v
		}
		tgt := one()
		var ls []reflect.Value
		for k := 0; k < 1+r.Intn(3); k++ {
			if r.Intn(6) == 0 {
				ls = append(ls, reflect.Zero(reflect.PtrTo(ty)))
			} else {
				ls = append(ls, one())
			}
		}
		in := name + " target " + dump(tgt, 0)
		for _, l := range ls {
			in += "\nlayer " + dump(l, 0)
		}
		t.Do(name, in, func() string {
			want := deep(tgt)
			for _, l := range ls {
				if !l.IsNil() {
					if name == "transform" {
						mergeStruct(want.Elem(), l.Elem(), tfMaps...)
					} else {
						mergeStruct(want.Elem(), l.Elem())
					}
				}
			}
			got := deep(tgt)
			got.MethodByName("Assign").Call(ls)
			if g, w := dump(got, 0), dump(want, 0); g != w {
				return "merged " + name + "\n got " + g + "\nwant " + w
			}
			return ""
		})
	}
}

func c02(t *T) {
	emptyOK = true
	t.Bound("random targets and up to 4 random layers")
	n := t.N(2500, 25000)
	for i := 0; i < n && !t.Over(); i++ {
		r := t.rand
		p := []float64{0.2, 0.5, 0.9}[r.Intn(3)]
		tgt := randDataset(r, p)
		if r.Intn(2) == 0 {
			tgt = &dataset.Dataset{}
		}
		ls := layers(r, 1+r.Intn(4), p)
		in := "target " + show(tgt) + "\nlayers " + show(ls)
		t.Do("layers", in, func() string {
			var before, metas []string
			for _, l := range ls {
				before = append(before, dd(l))
				metas = append(metas, metaOf(l))
			}
			tgt.Assign(ls...)
			for k, l := range ls {
				if a := dd(l); a != before[k] {
					return fmt.Sprintf("layer %d changed\nbefore %s\nafter  %s", k, before[k], a)
				}
				if a := metaOf(l); a != metas[k] {
					return fmt.Sprintf("layer %d arbitrary metadata changed\nbefore %s\nafter  %s", k, metas[k], a)
				}
			}
			// merging into the result again leaves the layers alone, too
			tgt.Assign(layers(r, 2, 0.7)...)
			for k, l := range ls {
				if a := dd(l); a != before[k] {
					return fmt.Sprintf("layer %d changed by a later merge into the same target\nbefore %s\nafter  %s", k, before[k], a)
				}
			}
			return ""
		})
		// single components
		a, b := &dataset.Transform{}, &dataset.Transform{}
		fill(r, reflect.ValueOf(a).Elem(), p, 3)
		fill(r, reflect.ValueOf(b).Elem(), p, 3)
		t.Do("transform", show(a)+show(b), func() string {
			x := &dataset.Transform{}
			before := dd(a) + dd(b)
			x.Assign(a, b)
			if after := dd(a) + dd(b); after != before {
				return "layer changed\nbefore " + before + "\nafter  " + after
			}
			return ""
		})
	}
}

func metaOf(d *dataset.Dataset) string {
	if d == nil || d.Meta == nil {
		return ""
	}
	return dd(d.Meta.Meta())
}

// ---- C03: emptiness and path references ----

type component interface {
	IsEmpty() bool
}

var compTypes = []struct {
	name   string
	ty     reflect.Type
	ignore string
}{
	{"commit", reflect.TypeOf(dataset.Commit{}), "Path Qri"},
	{"meta", reflect.TypeOf(dataset.Meta{}), "Path Qri"},
	{"structure", reflect.TypeOf(dataset.Structure{}), "Path Qri"},
	{"transform", reflect.TypeOf(dataset.Transform{}), "Path Qri"},
	{"readme", reflect.TypeOf(dataset.Readme{}), "Path Qri"},
	{"viz", reflect.TypeOf(dataset.Viz{}), "Path Qri"},
	{"stats", reflect.TypeOf(dataset.Stats{}), "Path Qri"},
	{"dataset", reflect.TypeOf(dataset.Dataset{}), "Path Qri NumVersions"},
}

func c03(t *T) {
	t.Bound("every single field of every component, and random subsets of fields")
	for _, ct := range compTypes {
		for i := -1; i < ct.ty.NumField(); i++ {
			if i >= 0 && ct.ty.Field(i).PkgPath != "" {
				continue
			}
			for k := 0; k < t.N(4, 20); k++ {
				v := reflect.New(ct.ty)
				if i >= 0 {
					setRandom(t.rand, v.Elem().Field(i), 0.5, 3)
				}
				checkEmpty(t, ct.name, ct.ignore, v)
			}
		}
		for k := 0; k < t.N(200, 2000); k++ {
			v := reflect.New(ct.ty)
			fill(t.rand, v.Elem(), 0.15, 3)
			checkEmpty(t, ct.name, ct.ignore, v)
		}
	}
	m := &dataset.Meta{Path: "/p"}
	m.SetArbitrary("custom", "x")
	t.Do("meta", "meta with only an arbitrary field", func() string {
		if m.IsEmpty() {
			return "IsEmpty() is true"
		}
		b, err := m.MarshalJSON()
		if err != nil || !bytes.Contains(b, []byte("custom")) {
			return fmt.Sprintf("encodes to %s, %v", b, err)
		}
		return ""
	})
}

func checkEmpty(t *T, name, ignore string, v reflect.Value) {
	in := name + " " + dump(v, 0)
	t.Do(name, in, func() string {
		want := true
		for i := 0; i < v.Elem().NumField(); i++ {
			f := v.Elem().Type().Field(i)
			if f.PkgPath != "" || strings.Contains(" "+ignore+" ", " "+f.Name+" ") {
				continue
			}
			fv := v.Elem().Field(i)
			if fv.Type() == timeT {
				if !fv.Interface().(time.Time).IsZero() {
					want = false
				}
			} else if !fv.IsZero() {
				want = false
			}
		}
		if got := v.Interface().(component).IsEmpty(); got != want {
			return fmt.Sprintf("IsEmpty() = %t, want %t", got, want)
		}
		// a path-carrying component encodes to a bare path only when it is empty
		c := deep(v)
		c.Elem().FieldByName("Path").SetString("/ref/path")
		b, err := json.Marshal(c.Interface())
		if err != nil {
			return "" // values JSON cannot encode
		}
		isRef := len(b) > 0 && b[0] == '"'
		if isRef != want {
			return fmt.Sprintf("with a path set it encodes to %s", b)
		}
		if isRef && string(b) != `"/ref/path"` {
			return fmt.Sprintf("reference encodes to %s", b)
		}
		if isRef {
			back := reflect.New(v.Type().Elem())
			if err := json.Unmarshal(b, back.Interface()); err != nil {
				return "decoding a reference: " + err.Error()
			}
			if back.Elem().FieldByName("Path").String() != "/ref/path" || !back.Interface().(component).IsEmpty() {
				return "a reference decodes to " + dump(back, 0)
			}
		}
		return ""
	})
}

// ---- C04: JSON round trip ----

func normJSON(v reflect.Value) {
	// canonical form of the values JSON carries
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	set := func(x reflect.Value, kind dataset.Kind) {
		if q := x.Elem().FieldByName("Qri"); q.IsValid() && q.String() == "" {
			q.SetString(kind.String())
		}
	}
	switch x := v.Interface().(type) {
	case *dataset.Dataset:
		set(v, dataset.KindDataset)
		for _, f := range []string{"Commit", "Meta", "Structure", "Transform", "Readme", "Viz", "Stats"} {
			normJSON(v.Elem().FieldByName(f))
		}
		x.Body = viaJSON(x.Body)
	case *dataset.Commit:
		if !(x.Path != "" && x.IsEmpty()) {
			set(v, dataset.KindCommit)
		} else {
			x.Qri = ""
		}
	case *dataset.Meta:
		if !(x.Path != "" && x.IsEmpty()) {
			x.Qri = dataset.KindMeta.String()
		} else {
			x.Qri = ""
		}
	case *dataset.Structure:
		if !(x.Path != "" && x.IsEmpty()) {
			set(v, dataset.KindStructure)
		} else {
			x.Qri = ""
		}
	case *dataset.Transform:
		x.Secrets = nil
		if !(x.Path != "" && x.IsEmpty()) {
			set(v, dataset.KindTransform)
		} else {
			x.Qri = ""
		}
	case *dataset.Readme:
		if !(x.Path != "" && x.IsEmpty()) {
			set(v, dataset.KindReadme)
			x.Path = ""
		} else {
			x.Qri = ""
		}
	case *dataset.Viz:
		if !(x.Path != "" && x.IsEmpty()) {
			set(v, dataset.KindViz)
			x.Path = ""
		} else {
			x.Qri = ""
		}
	case *dataset.Stats:
		if !(x.Path != "" && x.IsEmpty()) {
			set(v, dataset.KindStats)
		} else {
			x.Qri = ""
		}
	}
}

func viaJSON(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	b, err := json.Marshal(v)
	if err != nil {
		return v
	}
	var o interface{}
	json.Unmarshal(b, &o)
	return o
}

func c04(t *T) {
	t.Bound("random documents and components with valid UTF-8 text and JSON-type values")
	n := t.N(2500, 25000)
	for i := 0; i < n && !t.Over(); i++ {
		r := t.rand
		for _, ct := range compTypes {
			if ct.name != "dataset" && r.Intn(3) != 0 {
				continue
			}
			v := reflect.New(ct.ty)
			fill(r, v.Elem(), []float64{0.15, 0.4, 0.8}[r.Intn(3)], 4)
			switch x := v.Interface().(type) { // secrets never encode: C06
			case *dataset.Transform:
				x.Secrets = nil
			case *dataset.Dataset:
				if x.Transform != nil {
					x.Transform.Secrets = nil
				}
			}
			if m, ok := v.Interface().(*dataset.Meta); ok && r.Intn(2) == 0 {
				m.SetArbitrary("custom"+rstr(r), jsonValue(r, 2))
			}
			in := ct.name + " " + dump(v, 0)
			if m, ok := v.Interface().(*dataset.Meta); ok {
				in += " arbitrary " + dd(m.Meta())
			}
			name := ct.name
			t.Do(name, in, func() string {
				arb := ""
				if m, ok := v.Interface().(*dataset.Meta); ok {
					arb = dd(viaJSON(m.Meta()))
				}
				want := deep(v)
				if m, ok := v.Interface().(*dataset.Meta); ok {
					for k, x := range m.Meta() {
						want.Interface().(*dataset.Meta).SetArbitrary(k, x)
					}
				}
				b, err := json.Marshal(v.Interface())
				if err != nil {
					return "encoding: " + err.Error()
				}
				back := reflect.New(ct.ty)
				if err := json.Unmarshal(b, back.Interface()); err != nil {
					return fmt.Sprintf("decoding %s: %s", b, err)
				}
				got := back
				if d, ok := want.Interface().(*dataset.Dataset); ok && d.Path != "" && d.IsEmpty() {
					*d = dataset.Dataset{Path: d.Path}
				} else {
					normJSON(want)
				}
				norm := func(x reflect.Value) string { return dd(viaJSONFields(x)) }
				if g, w := norm(got), norm(want); g != w {
					return fmt.Sprintf("encoded %s\n got %s\nwant %s", b, g, w)
				}
				if m, ok := got.Interface().(*dataset.Meta); ok {
					if g := dd(viaJSON(m.Meta())); g != arb {
						return fmt.Sprintf("encoded %s\narbitrary fields got %s want %s", b, g, arb)
					}
				}
				b2, err := json.Marshal(got.Interface())
				if err != nil || !bytes.Equal(b, b2) {
					return fmt.Sprintf("second encoding differs: %s then %s (%v)", b, b2, err)
				}
				return ""
			})
		}
	}
}

// viaJSONFields prints with interface values in JSON form and empty containers equal to absent ones.
func viaJSONFields(v reflect.Value) interface{} {
	c := deep(v)
	scrub(c)
	return c.Interface()
}

func scrub(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scrub(v.Elem())
		}
	case reflect.Struct:
		if v.Type() == timeT {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scrub(v.Field(i))
			}
		}
	case reflect.Slice:
		if !v.IsNil() && v.Len() == 0 && v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		for i := 0; i < v.Len(); i++ {
			scrub(v.Index(i))
		}
	case reflect.Map:
		if !v.IsNil() && v.Len() == 0 && v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	}
}

// ---- C05: drops ----

func c05(t *T) {
	t.Bound("random components")
	trans := map[string]string{
		"commit": "Path", "meta": "Path", "structure": "Path", "transform": "Path Secrets Text", "readme": "Path Text", "viz": "Path Text",
		"dataset": "Body BodyBytes Name Peername Path ProfileID NumVersions",
	}
	deriv := map[string]string{
		"commit": "Path Qri", "meta": "Path Qri", "structure": "Checksum Depth ErrCount Entries Length Path Qri", "transform": "Path Qri", "readme": "Path Qri", "viz": "Path Qri", "stats": "Path Qri", "dataset": "Path Qri",
	}
	drop := func(v reflect.Value, fields string) {
		for _, f := range strings.Fields(fields) {
			v.Elem().FieldByName(f).Set(reflect.Zero(v.Elem().FieldByName(f).Type()))
		}
	}
	for i := 0; i < t.N(1500, 15000) && !t.Over(); i++ {
		for _, ct := range compTypes {
			v := reflect.New(ct.ty)
			fill(t.rand, v.Elem(), 0.8, 3)
			name := ct.name
			in := name + " " + dump(v, 0)
			if fs, ok := trans[name]; ok {
				t.Do(name, "transient "+in, func() string {
					want, got := deep(v), deep(v)
					drop(want, fs)
					got.MethodByName("DropTransientValues").Call(nil)
					if g, w := dump(got, 0), dump(want, 0); g != w {
						return "after DropTransientValues\n got " + g + "\nwant " + w
					}
					return ""
				})
			}
			t.Do(name, "derived "+in, func() string {
				want, got := deep(v), deep(v)
				drop(want, deriv[name])
				if name == "dataset" {
					for f, c := range map[string]string{"Commit": "commit", "Meta": "meta", "Structure": "structure", "Transform": "transform", "Readme": "readme", "Viz": "viz", "Stats": "stats"} {
						if x := want.Elem().FieldByName(f); !x.IsNil() {
							drop(x, deriv[c])
						}
					}
				}
				got.MethodByName("DropDerivedValues").Call(nil)
				if g, w := dump(got, 0), dump(want, 0); g != w {
					return "after DropDerivedValues\n got " + g + "\nwant " + w
				}
				return ""
			})
		}
	}
}

// ---- C06: secrets ----

func c06(t *T) {
	t.Bound("random transforms, alone and within datasets")
	const secret = "s3cr3t-value-7f"
	for i := 0; i < t.N(3000, 30000) && !t.Over(); i++ {
		tf := &dataset.Transform{}
		fill(t.rand, reflect.ValueOf(tf).Elem(), []float64{0, 0.2, 0.8}[t.rand.Intn(3)], 3)
		tf.Secrets = map[string]string{"api_key_name": secret, "b": secret + "2"}
		in := show(tf)
		t.Do("encode", in, func() string {
			ds := &dataset.Dataset{Transform: tf}
			fill(t.rand, reflect.ValueOf(&dataset.Commit{}).Elem(), 0.1, 1)
			var outs [][]byte
			for _, f := range []func() ([]byte, error){
				func() ([]byte, error) { return json.Marshal(tf) },
				func() ([]byte, error) { return json.Marshal(*tf) },
				func() ([]byte, error) { return tf.MarshalJSON() },
				func() ([]byte, error) { return tf.MarshalJSONObject() },
				func() ([]byte, error) { return json.Marshal(ds) },
				func() ([]byte, error) { return ds.MarshalJSON() },
				func() ([]byte, error) { return json.MarshalIndent(ds, "", "  ") },
				func() ([]byte, error) { return ds.SigningBytes(), nil },
			} {
				b, err := f()
				if err != nil {
					return "encoding: " + err.Error()
				}
				outs = append(outs, b)
			}
			for k, b := range outs {
				if bytes.Contains(b, []byte(secret)) || bytes.Contains(b, []byte("api_key_name")) || bytes.Contains(b, []byte(`"secrets"`)) {
					return fmt.Sprintf("encoding %d contains the secrets: %s", k, b)
				}
			}
			tf.DropTransientValues()
			if tf.Secrets != nil {
				return "DropTransientValues keeps the secrets"
			}
			return ""
		})
	}
}

// ---- C07: signing bytes ----

func c07(t *T) {
	t.Bound("random datasets; every subset of signed components")
	ref := func(ds *dataset.Dataset) string {
		var ls []string
		add := func(pre, v string) {
			if v != "" {
				ls = append(ls, pre+":"+v)
			}
		}
		add("id", ds.ID)
		add("bd", ds.BodyPath)
		if ds.Commit != nil && !ds.Commit.Timestamp.IsZero() {
			add("cm", ds.Commit.Timestamp.UTC().Format(time.RFC3339))
		}
		if ds.Meta != nil {
			add("md", ds.Meta.Path)
		}
		if ds.Readme != nil {
			add("rm", ds.Readme.Path)
		}
		if ds.Structure != nil {
			add("st", ds.Structure.Path)
		}
		if ds.Transform != nil {
			add("tf", ds.Transform.Path)
		}
		if ds.Stats != nil {
			add("sa", ds.Stats.Path)
		}
		if ds.Viz != nil {
			add("vz", ds.Viz.Path)
		}
		return strings.Join(ls, "\n")
	}
	for m := 0; m < 512; m++ {
		ds := &dataset.Dataset{Name: "n", Path: "/p", Peername: "pn", PreviousPath: "/prev"}
		for k := 0; k < 9; k++ {
			on := m&(1<<k) != 0
			path := ""
			if on {
				path = "/path/" + string(rune('a'+k))
			}
			set := on || t.rand.Intn(2) == 0
			switch k {
			case 0:
				ds.ID = path
			case 1:
				ds.BodyPath = path
			case 2:
				if set {
					ds.Commit = &dataset.Commit{Path: "/commit", Title: "t"}
					if on {
						ds.Commit.Timestamp = time.Unix(1+t.rand.Int63n(2000000000), t.rand.Int63n(1e9)).In(time.FixedZone("z", 3600*(t.rand.Intn(20)-10)))
					}
				}
			case 3:
				if set {
					ds.Meta = &dataset.Meta{Path: path, Title: "t"}
				}
			case 4:
				if set {
					ds.Readme = &dataset.Readme{Path: path, Text: "t"}
				}
			case 5:
				if set {
					ds.Structure = &dataset.Structure{Path: path, Format: "csv"}
				}
			case 6:
				if set {
					ds.Transform = &dataset.Transform{Path: path, Text: "t"}
				}
			case 7:
				if set {
					ds.Stats = &dataset.Stats{Path: path, Stats: 1}
				}
			case 8:
				if set {
					ds.Viz = &dataset.Viz{Path: path, Text: "t"}
				}
			}
		}
		signCase(t, ds, ref)
	}
	for i := 0; i < t.N(1500, 15000); i++ {
		signCase(t, randDataset(t.rand, 0.6), ref)
	}
}

func signCase(t *T, ds *dataset.Dataset, ref func(*dataset.Dataset) string) {
	t.Do("signing", show(ds), func() string {
		before := dd(ds)
		got := string(ds.SigningBytes())
		if w := ref(ds); got != w {
			return fmt.Sprintf("signing bytes %q, want %q", got, w)
		}
		if again := string(ds.SigningBytes()); again != got {
			return fmt.Sprintf("a second call gives %q after %q", again, got)
		}
		if dd(ds) != before {
			return "the dataset changed"
		}
		return ""
	})
}

// ---- C08: path map ----

func c08(t *T) {
	t.Bound("random datasets and ignore lists")
	names := []string{"body", "commit", "meta", "dataset", "readme", "structure", "transform", "viz", "stats"}
	for i := 0; i < t.N(4000, 40000); i++ {
		ds := randDataset(t.rand, []float64{0.3, 0.7, 1}[t.rand.Intn(3)])
		var ig []string
		for k := t.rand.Intn(4); k > 0; k-- {
			ig = append(ig, append(names, "other", "")[t.rand.Intn(11)])
		}
		t.Do("pathmap", show(ds)+fmt.Sprintf(" ignore %q", ig), func() string {
			want := map[string]string{}
			if ds.BodyPath != "" {
				want["body"] = ds.BodyPath
			}
			if ds.Path != "" {
				want["dataset"] = ds.Path
			}
			v := reflect.ValueOf(ds).Elem()
			for _, c := range []string{"Commit", "Meta", "Readme", "Structure", "Transform", "Viz", "Stats"} {
				if f := v.FieldByName(c); !f.IsNil() {
					want[strings.ToLower(c)] = f.Elem().FieldByName("Path").String()
				}
			}
			for _, x := range ig {
				delete(want, x)
			}
			before := dd(ds)
			got := ds.PathMap(ig...)
			if !reflect.DeepEqual(got, want) {
				return fmt.Sprintf("PathMap %v, want %v", got, want)
			}
			if dd(ds) != before {
				return "the dataset changed"
			}
			return ""
		})
	}
	t.Do("nil", "nil dataset", func() string {
		var ds *dataset.Dataset
		if m := ds.PathMap(); m == nil || len(m) != 0 {
			return fmt.Sprintf("PathMap of a nil dataset is %v", m)
		}
		return ""
	})
}

// ---- C09: names ----

func c09(t *T) {
	t.Bound("every defined code, all codes -300..300, every known name, random names")
	formats := map[string]dataset.DataFormat{"": dataset.UnknownDataFormat, "csv": dataset.CSVDataFormat, "json": dataset.JSONDataFormat, "xml": dataset.XMLDataFormat,
		"xlsx": dataset.XLSXDataFormat, "cbor": dataset.CBORDataFormat, "ndjson": dataset.NDJSONDataFormat}
	for i := -300; i <= 300; i++ {
		f := dataset.DataFormat(i)
		t.Do("dataformat", fmt.Sprint("format ", i), func() string {
			want := ""
			for n, x := range formats {
				if x == f {
					want = n
				}
			}
			if f.String() != want {
				return fmt.Sprintf("String() = %q, want %q", f.String(), want)
			}
			if _, known := formats[want]; want != "" && known {
				back, err := dataset.ParseDataFormatString(f.String())
				if err != nil || back != f {
					return fmt.Sprintf("parses back to %v, %v", back, err)
				}
				b, err := json.Marshal(f)
				if err != nil || string(b) != `"`+want+`"` {
					return fmt.Sprintf("JSON %s, %v", b, err)
				}
				var g dataset.DataFormat
				if err := json.Unmarshal(b, &g); err != nil || g != f {
					return fmt.Sprintf("JSON decodes to %v, %v", g, err)
				}
			}
			if f == dataset.UnknownDataFormat {
				if _, err := json.Marshal(f); err == nil {
					return "the unknown format encodes without error"
				}
			}
			return ""
		})
	}
	alias := map[string]dataset.DataFormat{".csv": dataset.CSVDataFormat, ".json": dataset.JSONDataFormat, ".xml": dataset.XMLDataFormat, ".xlsx": dataset.XLSXDataFormat,
		".cbor": dataset.CBORDataFormat, ".ndjson": dataset.NDJSONDataFormat, "jsonl": dataset.NDJSONDataFormat, ".jsonl": dataset.NDJSONDataFormat}
	for k, v := range formats {
		alias[k] = v
	}
	var names []string
	for k := range alias {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, n := range names {
		names = append(names, n+"x", strings.ToUpper(n), " "+n, "."+n)
	}
	for i := 0; i < 300; i++ {
		names = append(names, rstr(t.rand))
	}
	for _, n := range names {
		t.Do("dataformat", "name "+n, func() string {
			want, ok := alias[n]
			got, err := dataset.ParseDataFormatString(n)
			if ok != (err == nil) || got != want {
				return fmt.Sprintf("ParseDataFormatString(%q) = %v, %v", n, got, err)
			}
			g := dataset.CSVDataFormat
			b, _ := json.Marshal(n)
			err = json.Unmarshal(b, &g)
			if ok && (err != nil || g != want) {
				return fmt.Sprintf("JSON %s decodes to %v, %v", b, g, err)
			}
			if !ok && err == nil {
				return fmt.Sprintf("JSON %s decodes to %v without error", b, g)
			}
			if st := (&dataset.Structure{Format: n}); st.DataFormat() != want {
				return fmt.Sprintf("Structure{Format:%q}.DataFormat() = %v", n, st.DataFormat())
			}
			return ""
		})
	}
	comp := map[string]compression.Format{"gzip": compression.FmtGZip, "gz": compression.FmtGZip, "zst": compression.FmtZStandard, "zstd": compression.FmtZStandard}
	for _, n := range append([]string{"gzip", "gz", "zst", "zstd", "", "GZIP", "zip", "tar", " gz", "zs", "zstdd"}, names...) {
		t.Do("compression", "name "+n, func() string {
			want, ok := comp[n]
			got, err := compression.ParseFormat(n)
			if ok != (err == nil) || ok && got != want {
				return fmt.Sprintf("ParseFormat(%q) = %v, %v", n, got, err)
			}
			if ok {
				if back, err := compression.ParseFormat(got.String()); err != nil || back != got {
					return fmt.Sprintf("%q parses back to %v, %v", got, back, err)
				}
			}
			return ""
		})
	}
	ty := map[string]vals.Type{"string": vals.TypeString, "integer": vals.TypeInteger, "number": vals.TypeNumber, "boolean": vals.TypeBoolean, "null": vals.TypeNull, "object": vals.TypeObject, "array": vals.TypeArray}
	for _, n := range append([]string{"string", "integer", "number", "boolean", "null", "object", "array", "unknown", "String", "int"}, names...) {
		t.Do("type", "name "+n, func() string {
			want, ok := ty[n]
			got := vals.TypeFromString(n)
			if ok && (got != want || got.String() != n) {
				return fmt.Sprintf("TypeFromString(%q) = %v", n, got)
			}
			if !ok && got != vals.TypeUnknown {
				return fmt.Sprintf("TypeFromString(%q) = %v", n, got)
			}
			return ""
		})
	}
	for _, k := range []dataset.Kind{dataset.KindDataset, dataset.KindBody, dataset.KindMeta, dataset.KindStructure, dataset.KindTransform, dataset.KindCommit, dataset.KindViz, dataset.KindReadme, dataset.KindStats, "ab:12", "zz:0", "ds:1:2", "ds:v1.2-beta", "ds: 3 ", "DS:0", "ds:0123456789abcdef"} {
		t.Do("kind", string(k), func() string {
			if k.Valid() != nil {
				return "not valid: " + k.Valid().Error()
			}
			if k.Type() != string(k[:2]) || k.Version() != string(k[3:]) || k.Type()+":"+k.Version() != k.String() {
				return fmt.Sprintf("type %q version %q of %q", k.Type(), k.Version(), k)
			}
			if p := dataset.ComponentTypePrefix(k, "x:y"); p != k.Type()+":x:y" {
				return "ComponentTypePrefix gives " + p
			}
			var back dataset.Kind
			b, _ := json.Marshal(k)
			if err := json.Unmarshal(b, &back); err != nil || back != k {
				return fmt.Sprintf("JSON %s decodes to %q, %v", b, back, err)
			}
			return ""
		})
	}
	for _, k := range []string{"", "a", "ab", "ab:"} {
		t.Do("kind", "invalid "+k, func() string {
			if dataset.Kind(k).Valid() == nil {
				return fmt.Sprintf("kind %q is valid", k)
			}
			return ""
		})
	}
	seen := map[string]dataset.Kind{}
	for _, k := range []dataset.Kind{dataset.KindDataset, dataset.KindBody, dataset.KindMeta, dataset.KindStructure, dataset.KindTransform, dataset.KindCommit, dataset.KindViz, dataset.KindReadme, dataset.KindStats} {
		k := k
		t.Do("kind", "distinct "+string(k), func() string {
			if o, ok := seen[k.Type()]; ok {
				return fmt.Sprintf("kinds %s and %s share a prefix", o, k)
			}
			seen[k.Type()] = k
			return ""
		})
	}
}

// ---- C10: format configuration ----

func c10(t *T) {
	t.Bound("all option combinations with separators over many runes; random option maps with values of wrong types")
	runes := []rune{0, ',', ';', '\t', '|', 'é', '💡', '\u2028', 'a', '"', 0x10FFFF, 0x7f, 1, 0x80, 0x7ff, 0x800, 0xFFFC, 0xE000, 0xD7FF}
	for i := 0; i < t.N(300, 3000); i++ {
		x := rune(t.rand.Intn(0x10FFFF))
		if x >= 0xD800 && x < 0xE000 || x == 0xFFFD {
			continue
		}
		runes = append(runes, x)
	}
	for _, sep := range runes {
		for m := 0; m < 8; m++ {
			o := &dataset.CSVOptions{HeaderRow: m&1 != 0, LazyQuotes: m&2 != 0, VariadicFields: m&4 != 0, Separator: sep}
			t.Do("csv", fmt.Sprintf("%+v", *o), func() string {
				back, err := dataset.NewCSVOptions(o.Map())
				if err != nil {
					return fmt.Sprintf("NewCSVOptions(%v): %s", o.Map(), err)
				}
				if *back != *o {
					return fmt.Sprintf("%v parses to %+v", o.Map(), *back)
				}
				fc, err := dataset.ParseFormatConfigMap(dataset.CSVDataFormat, o.Map())
				if err != nil || fc.Format() != dataset.CSVDataFormat || *(fc.(*dataset.CSVOptions)) != *o {
					return fmt.Sprintf("ParseFormatConfigMap gives %v, %v", fc, err)
				}
				b, err := json.Marshal(o.Map())
				if err != nil {
					return err.Error()
				}
				var m2 map[string]interface{}
				if err := json.Unmarshal(b, &m2); err != nil {
					return err.Error()
				}
				if back, err = dataset.NewCSVOptions(m2); err != nil || *back != *o {
					return fmt.Sprintf("through JSON %s parses to %v, %v", b, back, err)
				}
				return ""
			})
		}
	}
	for i := 0; i < t.N(2000, 20000); i++ {
		m := map[string]interface{}{}
		bad := false
		want := dataset.CSVOptions{}
		val := func() interface{} {
			return []interface{}{true, false, nil, "s", ",", "", "ab", 1, 2.5, []interface{}{true}, map[string]interface{}{}, 'x', "é", "\xff", "→→"}[t.rand.Intn(15)]
		}
		for _, k := range []string{"headerRow", "lazyQuotes", "variadicFields"} {
			if t.rand.Intn(2) == 0 {
				continue
			}
			v := val()
			m[k] = v
			b, ok := v.(bool)
			if v != nil && !ok {
				bad = true
			}
			switch k {
			case "headerRow":
				want.HeaderRow = b
			case "lazyQuotes":
				want.LazyQuotes = b
			case "variadicFields":
				want.VariadicFields = b
			}
		}
		if t.rand.Intn(2) == 0 {
			v := val()
			m["separator"] = v
			if s, ok := v.(string); ok && s == "" {
				delete(m, "separator") // the empty separator is not part of the statement
			} else if ok {
				rs := []rune(s)
				if len(rs) != 1 || rs[0] == 0xFFFD {
					bad = true
				} else {
					want.Separator = rs[0]
				}
			} else if v != nil {
				bad = true
			}
		}
		t.Do("csv", fmt.Sprintf("%#v", m), func() string {
			o, err := dataset.NewCSVOptions(m)
			if bad != (err != nil) {
				return fmt.Sprintf("options %v, error %v", o, err)
			}
			if !bad && *o != want {
				return fmt.Sprintf("options %+v, want %+v", *o, want)
			}
			return ""
		})
		v := val()
		t.Do("xlsx", fmt.Sprintf("sheetName %#v", v), func() string {
			s, ok := v.(string)
			fc, err := dataset.ParseFormatConfigMap(dataset.XLSXDataFormat, map[string]interface{}{"sheetName": v})
			if (v == nil || ok) != (err == nil) {
				return fmt.Sprintf("config %v, error %v", fc, err)
			}
			if err == nil {
				if fc.(*dataset.XLSXOptions).SheetName != s || fc.Format() != dataset.XLSXDataFormat {
					return fmt.Sprintf("config %+v", fc)
				}
				back, err := dataset.NewXLSXOptions(fc.Map())
				if err != nil || back.(*dataset.XLSXOptions).SheetName != s {
					return fmt.Sprintf("%v parses to %v, %v", fc.Map(), back, err)
				}
			}
			return ""
		})
		jm := jsonMap(t.rand, 2)
		t.Do("json", fmt.Sprintf("%v", jm), func() string {
			fc, err := dataset.ParseFormatConfigMap(dataset.JSONDataFormat, jm)
			if err != nil || fc.Format() != dataset.JSONDataFormat || !reflect.DeepEqual(fc.Map(), jm) {
				return fmt.Sprintf("config %v, %v", fc, err)
			}
			return ""
		})
	}
	for _, f := range []dataset.DataFormat{dataset.UnknownDataFormat, dataset.XMLDataFormat, dataset.CBORDataFormat, dataset.NDJSONDataFormat, 99} {
		t.Do("other", fmt.Sprint(int(f)), func() string {
			if fc, err := dataset.ParseFormatConfigMap(f, map[string]interface{}{}); err == nil {
				return fmt.Sprintf("config %v without error", fc)
			}
			return ""
		})
	}
}

// ---- C11: column names ----

func c11(t *T) {
	max := t.N(200000, 3000000)
	t.Bound("column indexes 0..%d and powers of 26 up to the int range", max)
	seen := map[string]int{}
	chk := func(i int) {
		t.Do("column", fmt.Sprint(i), func() string {
			n := dataset.AbstractColumnName(i)
			if n == "" {
				return "empty name"
			}
			for _, c := range n {
				if c < 'a' || c > 'z' {
					return "name " + n
				}
			}
			if j, ok := seen[n]; ok && j != i {
				return fmt.Sprintf("columns %d and %d are both named %s", j, i, n)
			}
			seen[n] = i
			return ""
		})
	}
	for i := 0; i < max; i++ {
		chk(i)
	}
	x := 1
	for k := 0; k < 13; k++ {
		for d := -2; d <= 30; d++ {
			if x+d >= 0 {
				chk(x + d)
			}
		}
		x *= 26
	}
}

// ---- C26: opening bodies and scripts ----

type memResolver struct {
	files  map[string]string
	gets   []string
	broken bool
}

// brokenFile fails after its first bytes.
type brokenFile struct {
	qfs.File
	n int
}

func (b *brokenFile) Read(p []byte) (int, error) {
	if b.n == 0 && len(p) > 0 {
		b.n++
		p[0] = 'x'
		return 1, nil
	}
	return 0, fmt.Errorf("cannot be read")
}

func (m *memResolver) Get(ctx context.Context, path string) (qfs.File, error) {
	m.gets = append(m.gets, path)
	s, ok := m.files[path]
	if !ok {
		return nil, qfs.ErrNotFound
	}
	if m.broken {
		return &brokenFile{File: qfs.NewMemfileBytes(path, []byte(s))}, nil
	}
	return qfs.NewMemfileBytes(path, []byte(s)), nil
}

func readFile(f qfs.File) string {
	if f == nil || reflect.ValueOf(f).IsNil() {
		return "<none>"
	}
	b, err := ioutil.ReadAll(f)
	if err != nil {
		return "<error>" + err.Error()
	}
	return string(b)
}

func c26(t *T) {
	c26seq(t)
	t.Bound("every combination of inline value, bytes, path, resolver and resolvable path")
	ctx := context.Background()
	for m := 0; m < 64; m++ {
		ds := &dataset.Dataset{}
		if m&1 != 0 {
			ds.Body = []interface{}{1}
		}
		if m&2 != 0 {
			ds.BodyBytes = []byte("bytes")
			if m&32 != 0 {
				ds.BodyBytes = []byte{}
			}
		}
		if m&4 != 0 {
			ds.BodyPath = "/p/body.csv"
		}
		res := &memResolver{files: map[string]string{}}
		if m&8 != 0 {
			res.files["/p/body.csv"] = "resolved"
		}
		var pr qfs.PathResolver
		if m&16 != 0 {
			pr = res
		}
		t.Do("body", fmt.Sprintf("%s resolver=%t resolvable=%t", show(ds), m&16 != 0, m&8 != 0), func() string {
			err := ds.OpenBodyFile(ctx, pr)
			f := ds.BodyFile()
			switch {
			case ds.Body != nil:
				if err != dataset.ErrInlineBody {
					return fmt.Sprintf("error %v, want ErrInlineBody", err)
				}
			case ds.BodyBytes != nil:
				if err != nil || readFile(f) != string(ds.BodyBytes) {
					return fmt.Sprintf("error %v", err)
				}
				want := ds.BodyPath
				if want == "" {
					want = "body"
				}
				if f.FullPath() != want && f.FileName() != want {
					return "file is named " + f.FullPath()
				}
				if len(res.gets) != 0 {
					return "the resolver was asked although bytes are present"
				}
			case ds.BodyPath == "":
				if err != nil || f != nil {
					return fmt.Sprintf("file %v error %v, want neither", f, err)
				}
			case pr == nil:
				if err != dataset.ErrNoResolver {
					return fmt.Sprintf("error %v, want ErrNoResolver", err)
				}
			case m&8 == 0:
				if err == nil {
					return "no error for a path that cannot be resolved"
				}
			default:
				if err != nil || readFile(f) != "resolved" {
					return fmt.Sprintf("error %v", err)
				}
			}
			return ""
		})
	}
	type script interface {
		OpenScriptFile(context.Context, qfs.PathResolver) error
		InlineScriptFile(context.Context, qfs.PathResolver) error
		ScriptFile() qfs.File
		SetScriptFile(qfs.File)
	}
	for _, kind := range []string{"readme", "viz", "transform"} {
		for m := 0; m < 64; m++ {
			text, path := "", ""
			if m&1 != 0 {
				text = "inline text\n"
			}
			if m&2 != 0 {
				path = "/p/script"
			}
			res := &memResolver{files: map[string]string{}}
			if m&4 != 0 {
				res.files["/p/script"] = "resolved script"
			}
			var pr qfs.PathResolver
			if m&8 != 0 {
				pr = res
			}
			broken := m&32 != 0
			res.broken = broken
			var s script
			switch kind {
			case "readme":
				s = &dataset.Readme{Text: text, ScriptPath: path}
			case "viz":
				s = &dataset.Viz{Text: text, ScriptPath: path}
			case "transform":
				s = &dataset.Transform{Text: text, ScriptPath: path}
			}
			get := func(f string) string { return reflect.ValueOf(s).Elem().FieldByName(f).String() }
			in := fmt.Sprintf("%s text=%q path=%q resolver=%t resolvable=%t inline=%t", kind, text, path, pr != nil, m&4 != 0, m&16 != 0)
			t.Do(kind, in, func() string {
				if m&16 != 0 {
					err := s.InlineScriptFile(ctx, pr)
					switch {
					case pr == nil:
						if err != nil || get("Text") != text || get("ScriptPath") != path {
							return fmt.Sprintf("inlining without a resolver: error %v, component %s", err, show(s))
						}
					case text != "":
						if err != nil || get("Text") != text || get("ScriptPath") != "" {
							return fmt.Sprintf("error %v, component %s", err, show(s))
						}
					case path == "":
						if err != nil || get("Text") != "" {
							return fmt.Sprintf("error %v, component %s", err, show(s))
						}
					case m&4 == 0:
						if err == nil || get("ScriptPath") != path || get("Text") != "" {
							return fmt.Sprintf("error %v, component %s", err, show(s))
						}
					case broken:
						if err == nil || get("ScriptPath") != path || get("Text") != "" {
							return fmt.Sprintf("reading the script fails: error %v, component %s", err, show(s))
						}
					default:
						if err != nil || get("Text") != "resolved script" || get("ScriptPath") != "" {
							return fmt.Sprintf("error %v, component %s", err, show(s))
						}
					}
					return ""
				}
				err := s.OpenScriptFile(ctx, pr)
				f := s.ScriptFile()
				switch {
				case text != "":
					if err != nil || readFile(f) != text || len(res.gets) > 0 {
						return fmt.Sprintf("error %v", err)
					}
				case path == "":
					if err != nil || f != nil {
						return fmt.Sprintf("error %v file %v", err, f)
					}
				case pr == nil:
					if err != dataset.ErrNoResolver {
						return fmt.Sprintf("error %v, want ErrNoResolver", err)
					}
				case m&4 == 0:
					if err == nil {
						return "no error for a path that cannot be resolved"
					}
				case broken:
					if err != nil || f == nil {
						return fmt.Sprintf("error %v", err)
					}
				default:
					if err != nil || len(res.gets) != 1 || res.gets[0] != path || readFile(f) != "resolved script" {
						return fmt.Sprintf("error %v", err)
					}
				}
				return ""
			})
		}
	}
}

// c26seq drives one component through a random history of edits, opens and inlines, next to a model of it.
func c26seq(t *T) {
	ctx := context.Background()
	long := strings.Repeat("0123456789abcdef\n", 3000)
	for i := 0; i < t.N(400, 6000); i++ {
		kind := []string{"readme", "viz", "transform"}[t.rand.Intn(3)]
		var s interface {
			OpenScriptFile(context.Context, qfs.PathResolver) error
			InlineScriptFile(context.Context, qfs.PathResolver) error
			ScriptFile() qfs.File
			SetScriptFile(qfs.File)
		}
		switch kind {
		case "readme":
			s = &dataset.Readme{}
		case "viz":
			s = &dataset.Viz{}
		default:
			s = &dataset.Transform{}
		}
		set := func(f, v string) { reflect.ValueOf(s).Elem().FieldByName(f).SetString(v) }
		get := func(f string) string { return reflect.ValueOf(s).Elem().FieldByName(f).String() }
		var hist []string
		text, path := "", ""
		open := ""      // what the open file holds
		opened := false // whether a file is open
		fresh := true   // whether that is unread
		t.Do(kind+"-history", fmt.Sprintf("%s, history %d", kind, i), func() (bad string) {
			defer func() {
				if bad != "" {
					bad = "after " + strings.Join(hist, "; ") + ": " + bad
				}
			}()
			for n := 0; n < 8; n++ {
				res := &memResolver{files: map[string]string{"/a": "script a", "/b": "script b", "/long": long, "/empty": ""}}
				var pr qfs.PathResolver = res
				if t.rand.Intn(6) == 0 {
					pr = nil
				}
				res.broken = t.rand.Intn(5) == 0
				switch op := t.rand.Intn(6); op {
				case 0:
					text = []string{"", "text one", "text two"}[t.rand.Intn(3)]
					set("Text", text)
					hist = append(hist, fmt.Sprintf("text=%q", text))
				case 1:
					path = []string{"", "/a", "/b", "/long", "/empty", "/missing"}[t.rand.Intn(6)]
					set("ScriptPath", path)
					hist = append(hist, fmt.Sprintf("path=%q", path))
				case 2:
					hist = append(hist, "set file")
					s.SetScriptFile(qfs.NewMemfileBytes("f", []byte("given file")))
					open, opened, fresh = "given file", true, true
				default:
					name := map[bool]string{true: "open", false: "inline"}[op == 3 || op == 4]
					hist = append(hist, fmt.Sprintf("%s resolver=%t broken=%t", name, pr != nil, res.broken))
					var err error
					if name == "open" {
						err = s.OpenScriptFile(ctx, pr)
					} else {
						err = s.InlineScriptFile(ctx, pr)
						if pr == nil {
							if err != nil {
								return err.Error()
							}
							break
						}
					}
					wantErr := false
					willBreak := false
					switch {
					case text != "":
						open, opened, fresh = text, true, true
					case path == "":
					case pr == nil || path == "/missing":
						wantErr = true
					default:
						open, opened, fresh = res.files[path], true, true
						willBreak = res.broken
					}
					if text == "" && path != "" && pr != nil {
						if len(res.gets) != 1 || res.gets[0] != path {
							return fmt.Sprintf("fetched %q", res.gets)
						}
					} else if len(res.gets) != 0 {
						return fmt.Sprintf("fetched %q", res.gets)
					}
					if name == "inline" && willBreak {
						wantErr = true
					}
					if (err != nil) != wantErr {
						return fmt.Sprintf("error %v", err)
					}
					if name == "open" && !wantErr && opened && fresh && !willBreak {
						if got := readFile(s.ScriptFile()); got != open {
							return fmt.Sprintf("the open file reads %s, want %s", clip(got), clip(open))
						}
						fresh = false
					}
					if name == "inline" && !wantErr && opened {
						if !fresh {
							open = ""
						}
						text, path = open, ""
						fresh = false
					}
					if willBreak || wantErr {
						// what is open after a failure is not part of the property: start over
						s.SetScriptFile(nil)
						open, opened = "", false
					}
				}
				if get("Text") != text || get("ScriptPath") != path {
					return fmt.Sprintf("text %s path %q, want text %s path %q", clip(get("Text")), get("ScriptPath"), clip(text), path)
				}
			}
			return ""
		})
	}
	for _, kind := range []string{"readme", "viz"} {
		for m := 0; m < 8; m++ {
			path := map[bool]string{true: "/p/out", false: ""}[m&1 != 0]
			res := &memResolver{files: map[string]string{"/p/script": "other"}}
			if m&2 != 0 {
				res.files["/p/out"] = "rendered"
			}
			var pr qfs.PathResolver
			if m&4 != 0 {
				pr = res
			}
			var s interface {
				OpenRenderedFile(context.Context, qfs.PathResolver) error
				RenderedFile() qfs.File
			}
			if kind == "readme" {
				s = &dataset.Readme{RenderedPath: path, ScriptPath: "/p/script", Text: "t"}
			} else {
				s = &dataset.Viz{RenderedPath: path, ScriptPath: "/p/script", Text: "t"}
			}
			t.Do(kind+"-rendered", fmt.Sprintf("rendered path %q resolver=%t resolvable=%t", path, pr != nil, m&2 != 0), func() string {
				err := s.OpenRenderedFile(ctx, pr)
				f := s.RenderedFile()
				switch {
				case path == "":
					if err != nil || f != nil {
						return fmt.Sprintf("error %v file %v", err, f)
					}
				case pr == nil:
					if err != dataset.ErrNoResolver || f != nil {
						return fmt.Sprintf("error %v file %v", err, f)
					}
				case m&2 == 0:
					if err == nil || f != nil {
						return fmt.Sprintf("error %v file %v", err, f)
					}
				default:
					if err != nil || readFile(f) != "rendered" || len(res.gets) != 1 {
						return fmt.Sprintf("error %v file %v", err, f)
					}
				}
				return ""
			})
		}
	}
}
