package main

import (
	"fmt"
	"reflect"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/generate"
)

func init() { props["C30"] = c30 }

func kindOK(t string, v interface{}) bool {
	switch t {
	case "string":
		s, ok := v.(string)
		for _, c := range s {
			ok = ok && (c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
		}
		return ok
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "number":
		_, ok := v.(float64)
		return ok
	case "integer":
		_, ok := v.(int)
		return ok
	case "object":
		_, ok := v.(map[string]interface{})
		return ok
	case "array":
		_, ok := v.([]interface{})
		return ok
	case "null":
		return v == nil
	}
	switch v.(type) {
	case nil, int, string, float64, bool:
		return true
	}
	return false
}

func c30(t *T) {
	n := t.N(400, 8000)
	t.Bound("%d random schemas of up to 8 columns, 60 rows each", n)
	types := []string{"string", "boolean", "number", "integer", "object", "array", "null", "any"}
	opts := []func(*generate.Config){generate.AssignSeed, generate.AssignMaxLen, generate.AssignUseRandomType}
	for i := 0; i < n; i++ {
		items := []interface{}{}
		var first []string
		for j := t.rand.Intn(8); j >= 0; j-- {
			ty := types[t.rand.Intn(len(types))]
			col := map[string]interface{}{"title": fmt.Sprintf("c%d", j)}
			switch t.rand.Intn(4) {
			case 0:
				col["type"] = []interface{}{ty, types[t.rand.Intn(len(types))]}
			case 1:
				if t.rand.Intn(4) == 0 {
					ty = "string"
					break
				}
				fallthrough
			default:
				col["type"] = ty
			}
			items = append(items, col)
			first = append(first, ty)
		}
		st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{
			"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}}
		var use []func(*generate.Config)
		for _, o := range opts {
			if t.rand.Intn(2) == 0 {
				use = append(use, o)
			}
		}
		before := dd(st)
		t.Do(fmt.Sprintf("%d columns", len(items)), show(st.Schema), func() string {
			g, err := generate.NewTabularGenerator(st, use...)
			if err != nil {
				return fmt.Sprintf("NewTabularGenerator: %v", err)
			}
			if g.Structure() != st {
				return "the structure is another one"
			}
			var prev []interface{}
			for r := 0; r < 60; r++ {
				e, err := g.ReadEntry()
				if err != nil {
					return fmt.Sprintf("row %d: %v", r, err)
				}
				if e.Index != r || e.Key != "" {
					return fmt.Sprintf("row %d has index %d and key %q", r, e.Index, e.Key)
				}
				row, ok := e.Value.([]interface{})
				if !ok || len(row) != len(first) {
					return fmt.Sprintf("row %d is %T of %d cells, want %d", r, e.Value, reflect.ValueOf(e.Value).Len(), len(first))
				}
				for j, v := range row {
					if !kindOK(first[j], v) {
						return fmt.Sprintf("row %d: cell %d of type %s is %T", r, j, first[j], v)
					}
				}
				if len(prev) > 0 && &prev[0] == &row[0] {
					return "two rows share their cells"
				}
				prev = row
			}
			if dd(st) != before {
				return "generating changed the structure"
			}
			return ""
		})
	}
	for _, s := range []map[string]interface{}{nil, {"type": "object"}, {"type": "array"}, {"type": "array", "items": map[string]interface{}{"type": "array"}},
		{"type": "array", "items": map[string]interface{}{"type": "string"}}, {"type": 4}} {
		s := s
		t.Do("not a table", show(s), func() string {
			if _, err := generate.NewTabularGenerator(&dataset.Structure{Format: "json", Schema: s}); err == nil {
				return "no error for a schema that is not a table"
			}
			return ""
		})
	}
}
