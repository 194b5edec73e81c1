package main

import (
	"context"
	"fmt"
	"sort"

	"github.com/prometheus/prometheus/pkg/labels"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif/vh"
)

var c05Series = []labels.Labels{
	labels.FromStrings("__name__", "m", "v", collA),
	labels.FromStrings("__name__", "m", "v", collB),
	labels.FromStrings("__name__", "m", "lbl1", "value"),
}

func boundsC05(q bool) string {
	if q {
		return "every sequence of <=5 operations over {load s0|s1|s2 at t=1..3, discard older than 1..4}, checked after the last one (prefixes are cases of their own); every set of 8 series expiring together with sets coming back; every number of samples up to 40 (and around powers of two up to 1025) with every cutoff (larger: the outer and middle ones)"
	}
	return "every sequence of <=6 operations over {load s0|s1|s2 at t=1..3, discard older than 1..4}, checked after the last one; every set of 8 series expiring together with every set (every other) coming back; every number of samples up to 140 (and around powers of two up to 5000) with every cutoff up to 40 (larger: the outer and middle ones)"
}

func runC05(h *vh.H) {
	vh.Seqs(13, 1, h.Pick(5, 6), func(ix []int) {
		h.Case(func() string {
			s := ""
			for _, x := range ix {
				if x < 9 {
					s += fmt.Sprintf(" load(s%d@%d)", x/3, x%3+1)
				} else {
					s += fmt.Sprintf(" clean(<%d)", x-8)
				}
			}
			return s
		}, func(c *vh.C) { caseC05(c, ix) })
	})
	largeC05(h)
}

func caseC05(c *vh.C, ix []int) {
	st := prom.NewRangeStorage()
	ref := &refStore{}
	for i, x := range ix {
		c.Trans(1)
		if x < 9 {
			p := []prom.ParsedSeries{{Labels: c05Series[x/3], Timestamp: int64(x%3 + 1), Value: float64(i + 1)}}
			if err := st.LoadData(p); err != nil {
				c.Failf("load: %v", err)
			}
			ref.load(p)
		} else {
			st.Clean(int64(x - 8))
			ref.clean(int64(x - 8))
		}
	}
	q, err := st.Querier(context.Background(), 0, 10)
	if err != nil {
		c.Failf("%v", err)
	}
	sels := [][]*labels.Matcher{
		{everything},
		{mustMatcher(labels.MatchEqual, "__name__", "m")},
		{mustMatcher(labels.MatchEqual, "lbl1", "value")},
		{mustMatcher(labels.MatchEqual, "v", "")},
		{mustMatcher(labels.MatchNotEqual, "v", collA)},
	}
	for _, ms := range sels {
		got, err := dump(q, ms...)
		if err != nil {
			c.Failf("%v", err)
		}
		want := ref.dump(ms...)
		if !sameDump(got, want) {
			c.Failf("select %v:\n got %s\nwant %s", ms, dumpStr(got), dumpStr(want))
		}
	}
	for _, n := range []string{"__name__", "v"} {
		got, _, err := q.LabelValues(n)
		if err != nil {
			c.Failf("%v", err)
		}
		sort.Strings(got)
		set := map[string]bool{}
		for _, s := range ref.series {
			if v := s.lbls.Get(n); v != "" {
				set[v] = true
			}
		}
		var want []string
		for v := range set {
			want = append(want, v)
		}
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Failf("label values of %s: got %q want %q", n, got, want)
		}
	}
	c.Trace()
	d := dumpStr(ref.dump(everything))
	c.State(d)
	c.Outcome(d)
}
