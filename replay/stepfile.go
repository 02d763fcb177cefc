package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/stepfile"
)

func init() { props["C27"] = c27 }

type failAfter struct {
	n   int
	buf bytes.Buffer
}

func (f *failAfter) Write(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, errors.New("sink is full")
	}
	f.n--
	return f.buf.Write(p)
}

func c27(t *T) {
	n := t.N(2000, 40000)
	t.Bound("%d random lists of up to 6 steps of scripts made of dashes, newlines and text", n)
	bits := []string{"", "\n", "---", "--", "a", "\n---", "---\n", "\n\n", "x = 1", "\r\n", "é", " ---", "----", "\n--\n"}
	for i := 0; i < n; i++ {
		var want []string
		for j := t.rand.Intn(6); j >= 0; j-- {
			s := ""
			for k := t.rand.Intn(5); k > 0; k-- {
				s += bits[t.rand.Intn(len(bits))]
			}
			want = append(want, s)
		}
		var steps []*dataset.TransformStep
		for _, s := range want {
			st := &dataset.TransformStep{Name: "n", Syntax: "starlark"}
			switch t.rand.Intn(3) {
			case 0:
				st.Script = s
			case 1:
				st.Script = []byte(s)
			default:
				st.Script = strings.NewReader(s)
			}
			steps = append(steps, st)
		}
		text := strings.Join(want, "\n---\n")
		bad := t.rand.Intn(10) == 0
		if bad {
			steps[t.rand.Intn(len(steps))].Script = []interface{}{nil, 4, true, map[string]interface{}{"a": 1}}[t.rand.Intn(4)]
		}
		full := -1
		if t.rand.Intn(4) == 0 {
			full = t.rand.Intn(2*len(steps) - 1)
			for j := range steps {
				if _, ok := steps[j].Script.(io.Reader); ok { // an empty reader makes no write
					steps[j].Script = want[j]
				}
			}
		}
		t.Do(fmt.Sprintf("%d steps", len(steps)), fmt.Sprintf("%q bad %t full after %d", clip(text), bad, full), func() string {
			f := &failAfter{n: 1 << 30}
			if full >= 0 {
				f.n = full
			}
			err := stepfile.Write(steps, f)
			if bad || full >= 0 {
				if err == nil {
					return "no error"
				}
				return ""
			}
			if err != nil {
				return fmt.Sprintf("Write: %v", err)
			}
			if f.buf.String() != text {
				return fmt.Sprintf("wrote %q", f.buf.String())
			}
			return ""
		})
		if bad {
			continue
		}
		t.Do("read", fmt.Sprintf("%q", clip(text)), func() string {
			got, err := stepfile.Read(&chunkReader{data: []byte(text), r: t.rand, max: 3})
			if err != nil {
				return fmt.Sprintf("Read: %v", err)
			}
			pieces := strings.Split(text, "\n---\n")
			if len(got) != len(pieces) {
				return fmt.Sprintf("%d steps, want %d", len(got), len(pieces))
			}
			clean := true
			for j, s := range want {
				clean = clean && !strings.Contains(s, "\n---\n") && (j == len(want)-1 || !strings.HasSuffix(s, "\n---"))
			}
			if clean && len(got) != len(want) {
				return fmt.Sprintf("%d steps, %d were written", len(got), len(want))
			}
			for j, s := range got {
				if s.Script != pieces[j] || clean && s.Script != want[j] {
					return fmt.Sprintf("step %d is %q, want %q", j, s.Script, pieces[j])
				}
			}
			return ""
		})
		if i%20 == 0 {
			t.Do("cut", fmt.Sprintf("%q", clip(text)), func() string {
				if got, err := stepfile.Read(io.MultiReader(strings.NewReader(text), failing{})); err == nil || len(got) != 0 {
					return fmt.Sprintf("a source that fails reads as %d steps, error %v", len(got), err)
				}
				p := filepath.Join(t.scratch, "steps")
				if err := os.WriteFile(p, []byte(text), 0600); err != nil {
					return ""
				}
				got, err := stepfile.ReadFile(p)
				if err != nil || len(got) != strings.Count(text, "\n---\n")+1 {
					return fmt.Sprintf("ReadFile: %d steps, %v", len(got), err)
				}
				if _, err := stepfile.ReadFile(p + "-none"); err == nil {
					return "no error for a file that is not there"
				}
				return ""
			})
		}
	}
}
