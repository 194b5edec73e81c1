package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif/vh"
)

var c25Labels = []labels.Labels{
	labels.FromStrings("__name__", "m", "a", "1"),
	labels.FromStrings("__name__", "m"),
	labels.FromStrings(),
	labels.FromStrings("a", "1", "b", "x, y", "c", "é世"),
	nil,
	labels.FromStrings("A", "", "z", "q\"\n"),
	labels.FromStrings("__name__", "m", "v", collA),
	labels.FromStrings("__name__", "m", "v", collB),
}

var c25Points = []promql.Point{{T: 0, V: 0}, {T: 1600000000000, V: math.NaN()}, {T: -5, V: math.Inf(-1)}, {T: math.MaxInt64, V: math.MaxFloat64}, {T: 7, V: math.Copysign(0, -1)}}

func boundsC25(q bool) string {
	return fmt.Sprintf("every matrix of <=%d series over %d label sets with 0-%d points each over %d points (longest matrices: strided points); every other result type; every identity of 20000 generated label sets; every number of points, series and labels up to 40 and around powers of two up to 1025; up to 100001 points; source data overwritten after the conversion", map[bool]int{true: 3, false: 4}[q], len(c25Labels), 2, len(c25Points))
}

func runC25(h *vh.H) {
	// all point lists of length <= 2
	var pts [][]promql.Point
	vh.Seqs(len(c25Points), 0, 2, func(ix []int) {
		l := []promql.Point{}
		for _, i := range ix {
			l = append(l, c25Points[i])
		}
		pts = append(pts, l)
	})
	nl, np := len(c25Labels), len(pts)
	pts3 := append([][]promql.Point{nil, c25Points}, pts[1], pts[7], pts[12])
	add := func(name string, mk func() promql.Matrix) {
		h.Case(func() string { return name }, func(c *vh.C) { caseC25(c, mk) })
	}
	add("empty", func() promql.Matrix { return promql.Matrix{} })
	add("nil", func() promql.Matrix { return nil })
	for n := 1; n <= h.Pick(3, 4); n++ {
		src := pts
		if n > 2 {
			src = pts3
		}
		np = len(src)
		var dims []int
		for i := 0; i < n; i++ {
			dims = append(dims, nl, np)
		}
		if n == 4 {
			dims = []int{nl, np, nl, np, nl, np, nl, 2}
		}
		vh.Product(dims, func(ix []int) {
			if h.Stop() {
				return
			}
			ix = append([]int(nil), ix...)
			add(fmt.Sprintf("series (labels, points) %v", ix), func() promql.Matrix {
				var m promql.Matrix
				for i := 0; i < len(ix); i += 2 {
					m = append(m, promql.Series{Metric: append(labels.Labels(nil), c25Labels[ix[i]]...), Points: append([]promql.Point(nil), src[ix[i+1]]...)})
				}
				return m
			})
		})
	}
	for i := 0; i < 40; i++ {
		i := i
		h.Case(func() string { return fmt.Sprintf("identities %d", i) }, func(c *vh.C) {
			for j := 0; j < 500; j++ {
				l := labels.FromStrings("__name__", fmt.Sprintf("m%d", i), "n", fmt.Sprint(j))
				s := convert(c, promql.Matrix{{Metric: l}})
				s2 := convert(c, promql.Matrix{{Metric: c25Labels[0]}, {Metric: l.Copy(), Points: c25Points}})
				if s[0].Id() == plot.NoSeries || s[0].Id() != s2[1].Id() {
					c.Failf("%s has identities %d and %d", l, s[0].Id(), s2[1].Id())
				}
			}
		})
	}
	ns := sizes(h.Pick(40, 140), h.Pick(1025, 5000))
	for k, n := range append(ns, 10000, 11000, 11001, 20000, 32769, 65537, 100001) {
		n := n
		add(fmt.Sprintf("%d points", n), func() promql.Matrix {
			m := promql.Matrix{{Metric: c25Labels[0].Copy()}, {Metric: c25Labels[1].Copy()}}
			for i := 0; i < n; i++ {
				m[0].Points = append(m[0].Points, promql.Point{T: int64(i) * 15000, V: float64(i % 3)})
				m[1].Points = append(m[1].Points, promql.Point{T: int64(i) * 7, V: c25Points[i%len(c25Points)].V})
			}
			return m
		})
		if k >= len(ns) {
			continue // that many points only
		}
		add(fmt.Sprintf("%d series", n), func() promql.Matrix {
			var m promql.Matrix
			for i := 0; i < n; i++ {
				m = append(m, promql.Series{Metric: labels.FromStrings("__name__", "m", "i", fmt.Sprint(i/2*7919%n)), Points: []promql.Point{{T: 5, V: float64(i)}, {T: 6, V: 1}}[:i%3]})
			}
			return m
		})
		add(fmt.Sprintf("%d labels", n), func() promql.Matrix {
			ls := map[string]string{"__name__": strings.Repeat("m", n)}
			for i := 1; i < n; i++ {
				ls[fmt.Sprintf("l%04d", i*7919%n)] = strings.Repeat("é", i%5)
			}
			return promql.Matrix{{Metric: labels.FromMap(ls), Points: append([]promql.Point(nil), c25Points...)}, {Metric: labels.FromStrings("a", strings.Repeat("v, ", n))}}
		})
	}
	for i, r := range []*promql.Result{
		{Err: errors.New("boom"), Value: promql.Matrix{{Metric: c25Labels[0], Points: c25Points}}},
		{Err: errors.New("boom")},
		{Value: promql.Vector{{Metric: c25Labels[0], Point: c25Points[0]}}},
		{Value: promql.Vector{}},
		{Value: promql.Scalar{T: 1, V: 2}},
		{Value: promql.String{T: 1, V: "x"}},
		{},
	} {
		h.Case(func() string { return fmt.Sprintf("not a matrix %d", i) }, func(c *vh.C) {
			c.Trans(1)
			c.Trace()
			if s, err := metrics.PromResultToPromSeriesSet(r); err == nil || s != nil {
				c.Failf("%T, error %v gives %v, %v", r.Value, r.Err, s, err)
			}
			if r.Err != nil {
				if _, err := metrics.PromResultToPromSeriesSet(r); !errors.Is(err, r.Err) {
					c.Failf("error %v gives error %v", r.Err, err)
				}
			}
		})
	}
}

func convert(c *vh.C, m promql.Matrix) plot.SeriesSet {
	c.Trans(1)
	c.Trace()
	s, err := metrics.PromResultToPromSeriesSet(&promql.Result{Value: m})
	if err != nil {
		c.Failf("%v: %v", m, err)
	}
	if len(s) != len(m) {
		c.Failf("%d series from %d", len(s), len(m))
	}
	return s
}

func caseC25(c *vh.C, mk func() promql.Matrix) {
	src, want := mk(), mk()
	got := convert(c, src)
	again := convert(c, mk())
	check := func(when string) {
		for i, s := range got {
			w := want[i]
			var vals []string
			for _, l := range w.Metric {
				vals = append(vals, l.Value)
			}
			if s.Title() != strings.Join(vals, ", ") {
				c.Failf("%s: series %d is called %q", when, i, s.Title())
			}
			if len(s.Points()) != len(w.Points) {
				c.Failf("%s: series %d has %d points, want %d", when, i, len(s.Points()), len(w.Points))
			}
			for j, p := range s.Points() {
				if p.X() != w.Points[j].T || math.Float64bits(p.Y()) != math.Float64bits(w.Points[j].V) {
					c.Failf("%s: point %d of series %d is %d=%v, want %v", when, j, i, p.X(), p.Y(), w.Points[j])
				}
			}
			if s.Id() == plot.NoSeries || s.Id() != again[i].Id() {
				c.Failf("%s: series %d has identity %d, then %d", when, i, s.Id(), again[i].Id())
			}
			for j := range got[:i] {
				if labels.Equal(want[j].Metric, w.Metric) && got[j].Id() != s.Id() {
					c.Failf("%s: series %d and %d have the same labels, identities %d and %d", when, j, i, got[j].Id(), s.Id())
				}
			}
		}
	}
	check("converted")
	// the engine reuses a result's memory
	for i := range src {
		for j := range src[i].Points {
			src[i].Points[j] = promql.Point{T: 666, V: 666}
		}
		for j := range src[i].Metric {
			src[i].Metric[j] = labels.Label{Name: "reused", Value: "reused"}
		}
		src[i] = promql.Series{}
	}
	check("after the query's memory is reused")
	c.State(fmt.Sprint(want))
}
