package main

import (
	"context"
	"fmt"
	"math"
	"sort"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/storage"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif/vh"
)

// Size sweeps: the same comparison with the reference storage for contents far
// larger than the exhaustively combined ones, every size in a row first and
// then around the sizes at which code tends to change its mind.

func sizes(all, max int) []int {
	var out []int
	for n := 1; n <= all; n++ {
		out = append(out, n)
	}
	for p := 32; p <= max; p *= 2 {
		for _, n := range []int{p - 1, p, p + 1} {
			if n > all && n <= max {
				out = append(out, n)
			}
		}
	}
	for _, n := range []int{100, 101, 120, 121, 240, 500, 1000, 1001, 5000} {
		if n > all && n <= max {
			out = append(out, n)
		}
	}
	sort.Ints(out)
	return out
}

// oddValues are samples' values that are easily lost or merged.
var oddValues = []float64{
	0, math.Copysign(0, -1), 1, 1, math.NaN(), math.Float64frombits(0x7ff0000000000002), // the stale marker
	math.Inf(1), math.Inf(-1), math.Inf(1), math.SmallestNonzeroFloat64, math.MaxFloat64, 1, -1,
}

type rangeStore interface {
	LoadData([]prom.ParsedSeries) error
	Querier(context.Context, int64, int64) (storage.Querier, error)
}

func checkStore(c *vh.C, st rangeStore, ref *refStore, sels [][]*labels.Matcher, names []string) {
	q, err := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
	if err != nil {
		c.Failf("%v", err)
	}
	for _, ms := range sels {
		c.Trans(1)
		got, err := dump(q, ms...)
		if err != nil {
			c.Failf("select %v: %v", ms, err)
		}
		want := ref.dump(ms...)
		if !sameDump(got, want) {
			g, w := dumpStr(got), dumpStr(want)
			i := 0
			for i < len(g) && i < len(w) && g[i] == w[i] {
				i++
			}
			if i > 40 {
				i -= 40
			} else {
				i = 0
			}
			c.Failf("select %v: %d series instead of %d\n got ...%.300s\nwant ...%.300s", ms, len(got), len(want), g[i:], w[i:])
		}
	}
	lists := [][]*labels.Matcher{nil}
	for i, ms := range sels {
		if len(sels) <= 40 || i%(len(sels)/40) == 0 {
			lists = append(lists, ms)
		}
	}
	for _, ms := range lists {
		present := map[string]map[string]bool{}
		for _, s := range ref.series {
			if !matchAll(s.lbls, ms) {
				continue
			}
			for _, l := range s.lbls {
				if present[l.Name] == nil {
					present[l.Name] = map[string]bool{}
				}
				present[l.Name][l.Value] = true
			}
		}
		sorted := func(set map[string]bool) []string {
			l := []string{}
			for v := range set {
				l = append(l, v)
			}
			sort.Strings(l)
			return l
		}
		for _, n := range names {
			got, _, err := q.LabelValues(n, ms...)
			if err != nil {
				c.Failf("%v", err)
			}
			sort.Strings(got)
			if want := sorted(present[n]); fmt.Sprint(got) != fmt.Sprint(want) {
				c.Failf("label values of %s matching %v: got %d %.200q want %d %.200q", n, ms, len(got), got, len(want), want)
			}
		}
		all := map[string]bool{}
		for n := range present {
			all[n] = true
		}
		got, _, err := q.LabelNames(ms...)
		if err != nil {
			c.Failf("%v", err)
		}
		if want := sorted(all); fmt.Sprint(got) != fmt.Sprint(want) {
			c.Failf("label names matching %v: got %q want %q", ms, got, want)
		}
		c.Trans(1)
	}
	c.Trace()
	c.StateHash(vh.Hash(dumpStr(ref.dump(everything))))
}

func manyLabels(k int) labels.Labels {
	l := map[string]string{"__name__": fmt.Sprintf("m%d", k%5), "i": fmt.Sprint(k), "g": fmt.Sprint(k % 7), "job": "x"}
	if k%3 == 0 {
		l["opt"] = fmt.Sprint(k % 2)
	}
	return labels.FromMap(l)
}

// largeC02: n series; each selection compared.
func largeC02(h *vh.H) {
	for _, n := range sizes(h.Pick(40, 140), h.Pick(1025, 5000)) {
		n := n
		for _, perLoad := range []int{1, 17, n} {
			perLoad := perLoad
			h.Case(func() string { return fmt.Sprintf("%d series, %d per load", n, perLoad) }, func(c *vh.C) {
				st := prom.NewRangeStorage()
				ref := &refStore{}
				for i := 0; i < n; i += perLoad {
					var b []prom.ParsedSeries
					for j := i; j < i+perLoad && j < n; j++ {
						k := (j * 7919) % n // some order
						if n%7919 == 0 {
							k = j
						}
						b = append(b, prom.ParsedSeries{Labels: manyLabels(k), Timestamp: int64(j % 3), Value: float64(k)})
					}
					if err := st.LoadData(b); err != nil {
						c.Failf("%v", err)
					}
					// the reference is keyed by label set; all sets differ
					for _, p := range b {
						ref.series = append(ref.series, &refSeries{p.Labels, []sample{{p.Timestamp, p.Value}}})
					}
				}
				eq, ne, re, nr := labels.MatchEqual, labels.MatchNotEqual, labels.MatchRegexp, labels.MatchNotRegexp
				var sels [][]*labels.Matcher
				one := []*labels.Matcher{
					everything,
					mustMatcher(eq, "__name__", "m0"), mustMatcher(ne, "__name__", "m0"), mustMatcher(re, "__name__", "m[13]"),
					mustMatcher(eq, "i", "0"), mustMatcher(eq, "i", fmt.Sprint(n-1)), mustMatcher(eq, "i", fmt.Sprint(n/2)), mustMatcher(ne, "i", fmt.Sprint(n/2)),
					mustMatcher(eq, "i", fmt.Sprint(n)), mustMatcher(re, "i", ".*1.*"), mustMatcher(nr, "i", ".*1.*"), mustMatcher(re, "i", "0|5|17|31|32|33|100|1024"),
					mustMatcher(eq, "g", "3"), mustMatcher(ne, "g", "3"), mustMatcher(nr, "g", "3|4"),
					mustMatcher(eq, "job", "x"), mustMatcher(ne, "job", "x"), mustMatcher(eq, "job", ""),
					mustMatcher(eq, "opt", ""), mustMatcher(eq, "opt", "1"), mustMatcher(ne, "opt", "1"), mustMatcher(re, "opt", "|0"), mustMatcher(ne, "opt", ""), mustMatcher(nr, "opt", ".+"),
				}
				for i, a := range one {
					sels = append(sels, []*labels.Matcher{a})
					for j, b := range one {
						if i != j && (n <= 140 || (i+j)%5 == 0) {
							sels = append(sels, []*labels.Matcher{a, b})
						}
					}
				}
				checkStore(c, st, ref, sels, []string{"__name__", "i", "g", "opt", "job", "zz"})
			})
		}
	}
}

// largeC03: n samples arriving in several orders and batchings.
func largeC03(h *vh.H) {
	orders := []struct {
		name string
		f    func(i, n int) int64
	}{
		{"increasing", func(i, n int) int64 { return int64(i) }},
		{"decreasing", func(i, n int) int64 { return int64(n - i) }},
		{"every other first", func(i, n int) int64 {
			if 2*i < n {
				return int64(2 * i)
			}
			return int64(2*(i-(n+1)/2) + 1)
		}},
		{"last ones first", func(i, n int) int64 { return int64((i + n/2) % n) }},
		{"inwards", func(i, n int) int64 {
			if i%2 == 0 {
				return int64(i / 2)
			}
			return int64(n - i/2)
		}},
		{"three of each instant", func(i, n int) int64 { return int64(i / 3) }},
		{"one late every 10", func(i, n int) int64 {
			if i%10 == 9 {
				return int64(i - 7)
			}
			return int64(i)
		}},
		{"all at one instant", func(i, n int) int64 { return 7 }},
		{"extreme instants", func(i, n int) int64 {
			switch i % 3 {
			case 0:
				return math.MinInt64 + int64(i)
			case 1:
				return math.MaxInt64 - int64(i)
			}
			return int64(i)
		}},
	}
	for _, n := range sizes(h.Pick(40, 140), h.Pick(1025, 5000)) {
		for _, o := range orders {
			for _, perLoad := range []int{1, 3, n} {
				for _, series := range []int{1, 3} {
					n, o, perLoad, series := n, o, perLoad, series
					h.Case(func() string {
						return fmt.Sprintf("%d samples of each of %d series, %s, %d instants per load", n, series, o.name, perLoad)
					}, func(c *vh.C) {
						st := prom.NewRangeStorage()
						ref := &refStore{}
						var b []prom.ParsedSeries
						for i := 0; i < n; i++ {
							for s := 0; s < series; s++ {
								b = append(b, prom.ParsedSeries{Labels: c03Series[s], Timestamp: o.f(i, n), Value: oddValues[(i+s)%len(oddValues)]})
							}
							if i%perLoad == perLoad-1 || i == n-1 {
								if err := st.LoadData(b); err != nil {
									c.Failf("%v", err)
								}
								ref.load(b)
								for k := range b { // the caller's slice is its own
									b[k] = prom.ParsedSeries{Labels: labels.FromStrings("__name__", "overwritten"), Timestamp: -5, Value: -5}
								}
								b = b[:0]
							}
						}
						checkStore(c, st, ref, [][]*labels.Matcher{{everything}}, nil)
					})
				}
			}
		}
	}
}

// valuesC03: every sequence of odd values at equal or increasing instants.
func valuesC03(h *vh.H) {
	vh.Seqs(len(oddValues), 2, 3, func(ix []int) {
		ix = append([]int{}, ix...)
		for _, step := range []int64{0, 1, -1} {
			step := step
			h.Case(func() string { return fmt.Sprintf("values %v, instants %d apart", ix, step) }, func(c *vh.C) {
				st := prom.NewRangeStorage()
				ref := &refStore{}
				for i, x := range ix {
					p := []prom.ParsedSeries{{Labels: c03Series[0], Timestamp: int64(i) * step, Value: oddValues[x]}}
					if err := st.LoadData(p); err != nil {
						c.Failf("%v", err)
					}
					ref.load(p)
				}
				checkStore(c, st, ref, [][]*labels.Matcher{{everything}}, nil)
			})
		}
	})
}

// largeC05: which series expire, how many samples are left.
func largeC05(h *vh.H) {
	all := append(append([]labels.Labels{}, c05Series...), c03Series[2],
		labels.FromStrings("__name__", "n"), labels.FromStrings("__name__", "n", "a", "1"), labels.FromStrings("__name__", "n", "a", "2"), labels.FromStrings("a", "1"))
	eq := labels.MatchEqual
	sels := [][]*labels.Matcher{{everything}, {mustMatcher(eq, "__name__", "m")}, {mustMatcher(eq, "__name__", "n")}, {mustMatcher(eq, "a", "1")}, {mustMatcher(eq, "a", "")}, {mustMatcher(eq, "v", collB)}, {mustMatcher(eq, "lbl1", "value")}}
	names := []string{"__name__", "v", "a", "lbl1"}
	step := h.Pick(3, 1)
	for kept := 0; kept < 1<<len(all); kept++ {
		for back := kept % step; back < 1<<len(all); back += step * h.Pick(13, 2) {
			kept, back := kept, back
			h.Case(func() string { return fmt.Sprintf("of %d series %b stay, %b come back", len(all), kept, back) }, func(c *vh.C) {
				st := prom.NewRangeStorage()
				ref := &refStore{}
				load := func(mask int, t int64) {
					var b []prom.ParsedSeries
					for i, l := range all {
						if mask&(1<<i) != 0 {
							b = append(b, prom.ParsedSeries{Labels: l, Timestamp: t, Value: float64(t*100) + float64(i)})
						}
					}
					if err := st.LoadData(b); err != nil {
						c.Failf("%v", err)
					}
					ref.load(b)
				}
				clean := func(t int64) { st.Clean(t); ref.clean(t) }
				load(1<<len(all)-1, 1)
				load(kept, 3)
				clean(2)
				checkStore(c, st, ref, sels, names)
				load(back, 4)
				checkStore(c, st, ref, sels, names)
				clean(4)
				load(kept, 5)
				checkStore(c, st, ref, sels, names)
			})
		}
	}
	for _, n := range sizes(h.Pick(40, 140), h.Pick(1025, 5000)) {
		var cuts []int64
		for x := -1; x <= n+1; x++ {
			if n <= 40 || x < 3 || x > n-3 || x == n/2 || x == n/2+1 {
				cuts = append(cuts, int64(x))
			}
		}
		cuts = append(cuts, math.MinInt64, math.MaxInt64)
		for _, cut := range cuts {
			for _, gap := range []int64{1, 2} { // cutoffs at and between instants
				n, cut, gap := n, cut, gap
				h.Case(func() string { return fmt.Sprintf("%d samples %d apart, discard older than %d", n, gap, cut) }, func(c *vh.C) {
					st := prom.NewRangeStorage()
					ref := &refStore{}
					var b []prom.ParsedSeries
					for i := 0; i < n; i++ {
						b = append(b, prom.ParsedSeries{Labels: c05Series[0], Timestamp: int64(i) * gap, Value: float64(i)},
							prom.ParsedSeries{Labels: c05Series[1], Timestamp: int64(i)*gap - int64(n)/2, Value: float64(-i)},
							prom.ParsedSeries{Labels: manyLabels(i), Timestamp: int64(i) * gap, Value: 1})
					}
					if err := st.LoadData(b); err != nil {
						c.Failf("%v", err)
					}
					for _, p := range b {
						if p.Value == 1 && p.Labels.Get("job") != "" {
							ref.series = append(ref.series, &refSeries{p.Labels, []sample{{p.Timestamp, p.Value}}})
						} else {
							ref.add(p.Labels, p.Timestamp, p.Value)
						}
					}
					s := append([][]*labels.Matcher{{mustMatcher(eq, "job", "x")}, {mustMatcher(eq, "g", "3")}}, sels...)
					for k := 0; k < 2; k++ { // discarding once more changes nothing
						st.Clean(cut)
						ref.clean(cut)
						checkStore(c, st, ref, s, []string{"i", "g", "v"})
					}
					more := []prom.ParsedSeries{{Labels: c05Series[0], Timestamp: 3, Value: 77}, {Labels: manyLabels(0), Timestamp: 2, Value: 78}}
					if err := st.LoadData(more); err != nil {
						c.Failf("%v", err)
					}
					ref.load(more)
					checkStore(c, st, ref, s, []string{"i", "g", "v"})
				})
			}
		}
	}
}
