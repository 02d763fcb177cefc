// Command replay is the executable layer of the checks: for each property an oracle that
// drives the real code of /repo through its exported API. It gives a failed obligation a
// concrete failing input, and it is the bounded stand-in for what no contract covers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type failure struct {
	Key   string `json:"key"`
	Case  string `json:"case"`
	Input string `json:"input"`
	What  string `json:"what"`
}

type output struct {
	Cases    int       `json:"cases"`
	Distinct int       `json:"distinct"`
	Bounds   []string  `json:"bounds"`
	Failures []failure `json:"failures"`
	Note     string    `json:"note,omitempty"`
}

// T runs the cases of one property.
type T struct {
	rand     *rand.Rand
	thorough bool
	search   bool
	scratch  string
	deadline time.Time
	outPath  string

	mu    sync.Mutex
	out   output
	seen  map[uint64]bool
	cur   failure
	since time.Time
	fail  map[string]int
}

var props = map[string]func(*T){}

// N is the number of random cases for the tier.
func (t *T) N(quick, thorough int) int {
	n := quick
	if t.thorough || t.search {
		n = thorough
	}
	return n
}

// Bound records a limit of the search.
func (t *T) Bound(f string, a ...interface{}) {
	t.out.Bounds = append(t.out.Bounds, fmt.Sprintf(f, a...))
}

func (t *T) Over() bool { return time.Now().After(t.deadline) }

const caseLimit = 20 * time.Second

// Do runs one case; f returns "" when the property held.
func (t *T) Do(key, input string, f func() string) bool {
	t.mu.Lock()
	t.out.Cases++
	h := fnv.New64a()
	h.Write([]byte(key))
	h.Write([]byte(input))
	t.seen[h.Sum64()] = true
	t.cur = failure{Key: key, Input: input}
	t.since = time.Now()
	t.mu.Unlock()
	what := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				what = fmt.Sprintf("panic: %v\n%s", r, firstRepoFrames(string(debug.Stack())))
			}
		}()
		what = f()
	}()
	t.mu.Lock()
	t.since = time.Time{}
	t.mu.Unlock()
	if what != "" {
		t.failed(key, input, what)
		return false
	}
	return true
}

func (t *T) failed(key, input, what string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.fail[key]++
	if t.fail[key] > 3 || len(t.out.Failures) > 40 {
		return
	}
	if len(input) > 4000 {
		input = input[:4000] + "..."
	}
	if len(what) > 3000 {
		what = what[:3000] + "..."
	}
	t.out.Failures = append(t.out.Failures, failure{Key: key, Case: fmt.Sprint(t.out.Cases), Input: input, What: what})
}

func firstRepoFrames(s string) string {
	var keep []string
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if strings.Contains(l, "/repo/") && i > 0 {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 6 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func (t *T) write() {
	t.out.Distinct = len(t.seen)
	if t.out.Failures == nil {
		t.out.Failures = []failure{}
	}
	if t.out.Bounds == nil {
		t.out.Bounds = []string{}
	}
	b, _ := json.MarshalIndent(t.out, "", "  ")
	os.WriteFile(t.outPath, b, 0644)
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "result file")
	scratch := flag.String("scratch", "", "scratch directory")
	search := flag.Bool("search", false, "search harder for a failing input")
	flag.Parse()
	f := props[*prop]
	if *scratch == "" {
		d, err := os.MkdirTemp("", "replay")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		defer os.RemoveAll(d)
		*scratch = d
	}
	t := &T{rand: rand.New(rand.NewSource(*seed)), thorough: *tier == "thorough", search: *search, scratch: *scratch, outPath: *out,
		seen: map[uint64]bool{}, fail: map[string]int{}}
	budget := 40 * time.Second
	if t.thorough {
		budget = 240 * time.Second
	}
	t.deadline = time.Now().Add(budget)
	if *out == "" {
		t.outPath = *scratch + "/out.json"
	}
	if f == nil {
		t.out.Note = "no executable oracle for this property"
		t.write()
		return
	}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			t.mu.Lock()
			if !t.since.IsZero() && time.Since(t.since) > caseLimit {
				c := t.cur
				t.mu.Unlock()
				t.failed(c.Key, c.Input, fmt.Sprintf("does not terminate within %s", caseLimit))
				t.write()
				os.Exit(0)
			}
			t.mu.Unlock()
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.out.Note = fmt.Sprintf("oracle stopped: %v\n%s", r, debug.Stack())
			}
		}()
		f(t)
	}()
	t.write()
	if *out == "" {
		b, _ := os.ReadFile(t.outPath)
		os.Stdout.Write(b)
		fmt.Println()
	}
}
