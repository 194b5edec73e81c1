package main

import (
	"context"
	"fmt"

	"github.com/prometheus/prometheus/pkg/labels"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif/vh"
)

var c03Series = []labels.Labels{
	labels.FromStrings("__name__", "m", "v", collA),
	labels.FromStrings("__name__", "m", "v", collB),
	labels.FromStrings("__name__", "m", "v", collC),
}

func boundsC03(q bool) string {
	if q {
		return "every sequence of <=5 arrivals over 2 series x 4 timestamps with every batching, and every sequence of <=7 arrivals of one series over 4 timestamps in a single batch / singly; every permutation of 8 distinct timestamps; every sequence of <=3 of 13 odd values; every number of samples up to 40 and around powers of two up to 1025 in 9 orders, 3 batchings, for 1 and 3 series"
	}
	return "every sequence of <=6 arrivals over 2 series x 4 timestamps with every batching, of <=5 over 3 series x 4 timestamps, and of <=9 arrivals of one series over 4 timestamps; every permutation of 9 distinct timestamps; every sequence of <=3 of 13 odd values; every number of samples up to 140 and around powers of two up to 5000 in 9 orders, 3 batchings, for 1 and 3 series"
}

func runC03(h *vh.H) {
	gen := func(series, times, max int) {
		vh.Seqs(series*times, 0, max, func(ix []int) {
			nb := 1
			if len(ix) > 1 {
				nb = 1 << (len(ix) - 1)
			}
			for b := 0; b < nb; b++ {
				b := b
				h.Case(func() string { return c03Key(ix, times, b) }, func(c *vh.C) { caseC03(c, ix, times, b) })
			}
		})
	}
	gen(2, 4, h.Pick(5, 6))
	if !h.Quick() {
		gen(3, 4, 5)
	}
	vh.Seqs(4, 6, h.Pick(7, 9), func(ix []int) {
		for _, b := range []int{0, 1<<(len(ix)-1) - 1} {
			b := b
			h.Case(func() string { return c03Key(ix, 4, b) }, func(c *vh.C) { caseC03(c, ix, 4, b) })
		}
	})
	p := []int{0, 1, 2, 3, 4, 5, 6, 7}
	if !h.Quick() {
		p = append(p, 8)
	}
	vh.Perms(p, func(ix []int) {
		h.Case(func() string { return c03Key(ix, len(p), 0x55) }, func(c *vh.C) { caseC03(c, ix, len(p), 0x55) })
	})
	valuesC03(h)
	largeC03(h)
}

func c03Key(ix []int, times, batching int) string {
	s := ""
	for i, x := range ix {
		if i > 0 && batching&(1<<(i-1)) != 0 {
			s += " | "
		}
		s += fmt.Sprintf(" s%d@%d", x/times, x%times)
	}
	return "arrivals:" + s
}

func caseC03(c *vh.C, ix []int, times, batching int) {
	st := prom.NewRangeStorage()
	ref := &refStore{}
	var batch []prom.ParsedSeries
	flush := func() {
		if err := st.LoadData(batch); err != nil {
			c.Failf("load: %v", err)
		}
		ref.load(batch)
		batch = nil
		c.Trans(1)
	}
	for i, x := range ix {
		if i > 0 && batching&(1<<(i-1)) != 0 {
			flush()
		}
		batch = append(batch, prom.ParsedSeries{Labels: c03Series[x/times], Timestamp: int64(x%times) - 1, Value: float64(i + 1)})
	}
	flush()
	q, err := st.Querier(context.Background(), -10, 10)
	if err != nil {
		c.Failf("%v", err)
	}
	got, err := dump(q, everything)
	if err != nil {
		c.Failf("%v", err)
	}
	want := ref.dump(everything)
	c.Trace()
	if !sameDump(got, want) {
		c.Failf("got %s\nwant %s", dumpStr(got), dumpStr(want))
	}
	c.State(dumpStr(want))
	c.Outcome(dumpStr(want))
}
