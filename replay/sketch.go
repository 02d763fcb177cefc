package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/qri-io/dataset/dsstats/histosketch"
)

func init() { props["C22"] = c22 }

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-6*(math.Abs(a)+math.Abs(b)+1)
}

// sketchIs compares a sketch with the values that were added to it
func sketchIs(s *histosketch.Sketch, n int, vals []float64) string {
	count := map[float64]float64{}
	lo, hi := math.MaxFloat64, -math.MaxFloat64
	for _, v := range vals {
		count[v]++
		lo, hi = math.Min(lo, v), math.Max(hi, v)
	}
	if s.Count() != float64(len(vals)) {
		return fmt.Sprintf("Count() = %v, want %d", s.Count(), len(vals))
	}
	if s.Min() != lo || s.Max() != hi {
		return fmt.Sprintf("Min(), Max() = %v, %v, want %v, %v", s.Min(), s.Max(), lo, hi)
	}
	bins, freq := s.Read()
	if len(bins) != len(freq)+1 || len(freq) > n {
		return fmt.Sprintf("Read(): %d bins and %d frequencies in a sketch of %d", len(bins), len(freq), n)
	}
	sum := 0.0
	for i, f := range freq {
		sum += f
		if !(f > 0) || !(bins[i] < bins[i+1]) {
			return fmt.Sprintf("Read(): bin %d at %v with frequency %v, next %v", i, bins[i], f, bins[i+1])
		}
		if !(lo <= bins[i] && bins[i] <= hi) {
			return fmt.Sprintf("Read(): bin at %v outside %v..%v", bins[i], lo, hi)
		}
	}
	if sum != float64(len(vals)) {
		return fmt.Sprintf("Read(): frequencies add up to %v, want %d", sum, len(vals))
	}
	if len(vals) > 0 && !(bins[len(freq)] > hi) {
		return fmt.Sprintf("Read(): last bin ends at %v, maximum %v", bins[len(freq)], hi)
	}
	if len(count) <= n {
		if len(freq) != len(count) {
			return fmt.Sprintf("Read(): %d bins for %d values", len(freq), len(count))
		}
		for i, f := range freq {
			if count[bins[i]] != f {
				return fmt.Sprintf("Read(): frequency %v at %v, want %v", f, bins[i], count[bins[i]])
			}
		}
	}
	if len(vals) == 0 {
		return ""
	}
	sorted := append([]float64{}, vals...)
	sort.Float64s(sorted)
	probe := append([]float64{lo - 1, lo, hi, hi + 1, (lo + hi) / 2}, bins...)
	probe = append(probe, vals[:min2(len(vals), 20)]...)
	for _, p := range probe {
		got := s.Sum(p)
		if !(got >= -1e-6 && got <= float64(len(vals))*(1+1e-6)) {
			return fmt.Sprintf("Sum(%v) = %v of %d", p, got, len(vals))
		}
		le := sort.Search(len(sorted), func(i int) bool { return sorted[i] > p })
		if (len(count) <= n || p < lo || p >= hi) && got != float64(le) {
			return fmt.Sprintf("Sum(%v) = %v, want %d", p, got, le)
		}
	}
	for _, q := range []float64{0, 0.01, 0.25, 0.4999999, 0.5, 0.75, 0.99, 1} {
		v := s.Quantile(q)
		if !(v >= lo-1e-6*(math.Abs(lo)+1) && v <= hi+1e-6*(math.Abs(hi)+1)) {
			return fmt.Sprintf("Quantile(%v) = %v outside %v..%v", q, v, lo, hi)
		}
	}
	if m := s.Median(); m != s.Quantile(0.4999999) {
		return fmt.Sprintf("Median() = %v", m)
	}
	return ""
}

// refSketch is the sketch by its description: sorted bins, the two closest merged into their mean when there are too many
type refBin struct{ p, m float64 }

func refAdd(bins []refBin, n int, v, count float64) []refBin {
	k := 0
	for k < len(bins) && bins[k].p < v {
		k++
	}
	if k < len(bins) && bins[k].p == v {
		bins[k].m += count
		return bins
	}
	bins = append(bins[:k:k], append([]refBin{{v, count}}, bins[k:]...)...)
	if len(bins) <= n {
		return bins
	}
	mi := 0
	for i := range bins[1:] {
		if bins[i+1].p-bins[i].p < bins[mi+1].p-bins[mi].p {
			mi = i
		}
	}
	a, b := bins[mi], bins[mi+1]
	bins[mi] = refBin{(a.p*a.m + b.p*b.m) / (a.m + b.m), a.m + b.m}
	return append(bins[:mi+1], bins[mi+2:]...)
}

func refIs(s *histosketch.Sketch, ref []refBin) string {
	bins, freq := s.Read()
	ok := len(freq) == len(ref)
	for i := range freq {
		ok = ok && near(bins[i], ref[i].p) && freq[i] == ref[i].m
	}
	if !ok {
		return fmt.Sprintf("Read() = %v %v, want %v", bins, freq, ref)
	}
	return ""
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func sketchSame(a, b *histosketch.Sketch) string {
	ab, af := a.Read()
	bb, bf := b.Read()
	if fmt.Sprint(ab, af, a.Count(), a.Min(), a.Max()) != fmt.Sprint(bb, bf, b.Count(), b.Min(), b.Max()) {
		return fmt.Sprintf("%v %v %v %v %v became %v %v %v %v %v", ab, af, a.Count(), a.Min(), a.Max(), bb, bf, b.Count(), b.Min(), b.Max())
	}
	return ""
}

func c22(t *T) {
	r := t.rand
	t.Bound("sketches of up to 20 centroids given up to 200 values: few and many distinct values, in order and out of order, one by one and several at once; merged, stored and loaded")
	values := func() []float64 {
		n := r.Intn(40)
		if r.Intn(4) == 0 {
			n = r.Intn(200)
		}
		kind := r.Intn(5)
		out := make([]float64, n)
		for i := range out {
			switch kind {
			case 0:
				out[i] = float64(r.Intn(6))
			case 1:
				out[i] = float64(r.Intn(100) - 50)
			case 2:
				out[i] = r.NormFloat64() * 1000
			case 3:
				out[i] = float64(i)
			default:
				out[i] = float64(-i)/4 + float64(r.Intn(2))
			}
		}
		return out
	}
	for i := 0; i < t.N(4000, 60000); i++ {
		n := 1 + r.Intn(20)
		vals := values()
		many := r.Intn(3) == 0
		in := clip(fmt.Sprintf("n=%d many=%v %v", n, many, vals))
		build := func(vals []float64) (*histosketch.Sketch, []float64) {
			s := histosketch.New(uint(n))
			var all []float64
			for j, v := range vals {
				if many {
					k := int64(1 + j%3)
					s.AddMany(v, k)
					for ; k > 0; k-- {
						all = append(all, v)
					}
				} else {
					s.Add(v)
					all = append(all, v)
				}
			}
			return s, all
		}
		t.Do("add", in, func() string {
			s := histosketch.New(uint(n))
			var all []float64
			var ref []refBin
			for j, v := range vals {
				k := int64(1)
				if many {
					k = int64(1 + j%3)
					s.AddMany(v, k)
				} else {
					s.Add(v)
				}
				ref = refAdd(ref, n, v, float64(k))
				for ; k > 0; k-- {
					all = append(all, v)
				}
				if r.Intn(6) == 0 {
					if x := sketchIs(s, n, all); x != "" {
						return fmt.Sprintf("after %d values: %s", j+1, x)
					}
				}
			}
			if x := refIs(s, ref); x != "" {
				return x
			}
			return sketchIs(s, n, all)
		})
		t.Do("stored", in, func() string {
			s, all := build(vals)
			data, err := s.MarshalBinary()
			if err != nil {
				return err.Error()
			}
			got := &histosketch.Sketch{}
			if err := got.UnmarshalBinary(data); err != nil {
				return err.Error()
			}
			if x := sketchSame(s, got); x != "" {
				return x
			}
			_ = all
			return ""
		})
		other := values()
		t.Do("merge", clip(in+fmt.Sprint(" with ", other)), func() string {
			s, a := build(vals)
			o, b := build(other)
			ob, of := o.Read()
			s.Merge(*o)
			if x := sketchIsMerged(s, n, a, b); x != "" {
				return x
			}
			if pb, pf := o.Read(); fmt.Sprint(ob, of) != fmt.Sprint(pb, pf) {
				return "merging changed the other sketch"
			}
			return ""
		})
		if len(vals) > 0 {
			t.Do("sample", in, func() string {
				s := histosketch.NewFromSample(append([]float64{}, vals...), n)
				bins, freq := s.Read()
				sum := 0.0
				for i, f := range freq {
					sum += f
					if !(f > 0) || bins[i] > bins[i+1] {
						return fmt.Sprintf("bin %d at %v with frequency %v, next %v", i, bins[i], f, bins[i+1])
					}
				}
				lo, hi := vals[0], vals[0]
				for _, v := range vals {
					lo, hi = math.Min(lo, v), math.Max(hi, v)
				}
				if sum != float64(len(vals)) || s.Count() != sum || len(freq) > n || s.Min() != lo || s.Max() != hi {
					return fmt.Sprintf("%d values in %d bins: frequencies %v, Count %v, Min %v, Max %v", len(vals), len(freq), sum, s.Count(), s.Min(), s.Max())
				}
				return ""
			})
		}
	}
}

func sketchIsMerged(s *histosketch.Sketch, n int, a, b []float64) string {
	all := append(append([]float64{}, a...), b...)
	return sketchIs(s, n, all)
}
