package main

import (
	"context"
	"fmt"
	"math"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/pkg/value"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/storage"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif/vh"
)

var c04Exprs = []string{
	`m`, `m{j="x"}`, `{__name__=~"..*"}`, `m offset 10s`, `m{j!="x"} offset 20s`,
	`timestamp(m)`, `timestamp(m offset 10s)`, `timestamp(timestamp(m))`,
	`m[30s]`, `m[11s] offset 10s`,
	`rate(m[30s])`, `increase(m[20s])`, `irate(m[40s])`, `delta(m[30s])`, `idelta(m[30s])`,
	`count_over_time(m[25s])`, `sum_over_time(m[5s])`, `last_over_time(m[10s])`, `min_over_time(m[1m])`,
	`changes(m[1m])`, `resets(m[1m])`, `deriv(m[1m])`, `predict_linear(m[1m], 10)`, `absent_over_time(m[10s])`,
	`quantile_over_time(0.5, m[30s])`, `stddev_over_time(m[1m])`, `present_over_time(m[10s])`,
	`sum(m)`, `sum by (j) (m)`, `count(m) by (j)`, `max without (j) (m)`, `topk(1, m)`, `avg(m)`,
	`absent(m)`, `absent(zz)`, `scalar(m)`, `vector(time())`, `time()`, `1 + 2`, `"s"`,
	`m + m`, `m + on(j) n`, `m * on(j) group_left n`, `m + ignoring(j) n`, `m and on(j) n`, `m or n`, `m unless n`, `m > bool 2`, `m > 2`,
	`-m`, `m % 2`, `2 ^ m`,
	`rate(m[30s]) + rate(m[20s])`, `m + m offset 10s`, `m[20s:5s]`, `sum_over_time(m[30s:10s])`, `rate(m[30s:10s])`, `max_over_time(rate(m[20s])[30s:10s])`,
	`max_over_time(timestamp(m)[30s:7s])`, `sum_over_time(sum(m)[20s:5s] offset 5s)`,
	`m @ 20`, `rate(m[20s] @ 40)`, `timestamp(m @ 20)`, `m @ start()`, `sum_over_time(m[20s] @ end())`, `m offset -10s`, `rate(m[20s] offset -10s)`,
	`count_over_time(m[30s:])`, `label_replace(m, "k", "$1", "j", "(.*)")`, `label_join(m, "k", "-", "j", "__name__")`,
	`clamp_max(m, 2)`, `round(m / 3)`, `abs(m - 3)`, `hour(m)`, `sort(sum by (j) (m))`,
}

func boundsC04(q bool) string {
	return fmt.Sprintf("%d expressions x %s sample-presence patterns of two series over 5 instants (with resets, stale markers and a third series) x 3 instants and 3 ranges; plus the default engine options on stepless subqueries; plus every sequence of <=%d iterator operations over two interleaved iterators of one series", len(c04Exprs), map[bool]string{true: "32x5", false: "32x32"}[q], map[bool]int{true: 5, false: 6}[q])
}

func c04Data(pa, pb, variant int) []prom.ParsedSeries {
	A := labels.FromStrings("__name__", "m", "j", "x")
	B := labels.FromStrings("__name__", "m", "j", "y")
	C := labels.FromStrings("__name__", "n", "j", "x", "k", "1")
	va := []float64{1, 3, 7, 2, 5}
	vb := []float64{4, 4, 0, 1, 6}
	var out []prom.ParsedSeries
	for i := 0; i < 5; i++ {
		t := int64(i * 10000)
		if pa&(1<<i) != 0 {
			v := va[i]
			if variant == 1 && i == 2 {
				v = math.Float64frombits(value.StaleNaN)
			}
			if variant == 2 {
				v = []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), -5}[i]
			}
			out = append(out, prom.ParsedSeries{Labels: A, Timestamp: t, Value: v})
		}
		if pb&(1<<i) != 0 {
			out = append(out, prom.ParsedSeries{Labels: B, Timestamp: t + 1000, Value: vb[i]})
		}
		if i%2 == 0 {
			out = append(out, prom.ParsedSeries{Labels: C, Timestamp: t, Value: float64(i)})
		}
	}
	if variant == 2 { // arrive newest first
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func runC04(h *vh.H) {
	opts := prom.DefaultEngineOptions(time.Hour, 100000)
	opts.LookbackDelta = 15 * time.Second
	opts.EnableAtModifier = true
	opts.EnableNegativeOffset = true
	opts.NoStepSubqueryIntervalFn = func(int64) int64 { return 5000 }
	eng := promql.NewEngine(opts)
	dopts := prom.DefaultEngineOptions(time.Hour, 100000)
	deng := promql.NewEngine(dopts)
	ropts := promql.EngineOpts{Timeout: time.Hour, MaxSamples: 100000, NoStepSubqueryIntervalFn: func(int64) int64 { return 60000 }}
	reng := promql.NewEngine(ropts)

	iterSeqs(h)

	pbs := []int{0, 1, 10, 31, 20}
	if !h.Quick() {
		pbs = nil
		for i := 0; i < 32; i++ {
			pbs = append(pbs, i)
		}
	}
	for e := range c04Exprs {
		for pa := 0; pa < 32; pa++ {
			for _, pb := range pbs {
				for variant := 0; variant < 3; variant++ {
					e, pa, pb, variant := e, pa, pb, variant
					h.Case(func() string {
						return fmt.Sprintf("expr %s presence a=%05b b=%05b variant=%d", c04Exprs[e], pa, pb, variant)
					}, func(c *vh.C) {
						compareEngines(c, eng, eng, c04Exprs[e], c04Data(pa, pb, variant), 1)
					})
				}
			}
		}
	}
	for _, e := range []string{`m`, `timestamp(m)`, `rate(m[10m])`, `count_over_time(m[10m:])`, `m[1m:]`, `m[15m:]`, `sum_over_time(sum(m)[12m:])`, `m offset 3m`} {
		for pa := 0; pa < 32; pa++ {
			e, pa := e, pa
			h.Case(func() string { return fmt.Sprintf("default options expr %s presence a=%05b", e, pa) }, func(c *vh.C) {
				compareEngines(c, deng, reng, e, c04Data(pa, 9, 0), 20)
			})
		}
	}
}

// compareEngines compares the two with all times multiplied by scale.
func compareEngines(c *vh.C, eng, reng *promql.Engine, expr string, data []prom.ParsedSeries, scale int64) {
	for i := range data {
		data[i].Timestamp *= scale
	}
	st := prom.NewRangeStorage()
	ref := &refStore{}
	if err := st.LoadData(data); err != nil {
		c.Failf("load: %v", err)
	}
	ref.load(data)
	ctx := context.Background()
	mk := func(ms int64) time.Time { ms *= scale; return time.Unix(ms/1000, ms%1000*1e6).UTC() }
	run := func(e *promql.Engine, q storage.Queryable, kind int) string {
		var qq promql.Query
		var err error
		switch kind {
		case 0:
			qq, err = e.NewInstantQuery(q, expr, mk(25000))
		case 1:
			qq, err = e.NewInstantQuery(q, expr, mk(41000))
		case 2:
			qq, err = e.NewInstantQuery(q, expr, mk(10000))
		case 3:
			qq, err = e.NewRangeQuery(q, expr, mk(0), mk(50000), 10*time.Second*time.Duration(scale))
		case 4:
			qq, err = e.NewRangeQuery(q, expr, mk(5000), mk(45000), 7*time.Second*time.Duration(scale))
		case 5:
			qq, err = e.NewRangeQuery(q, expr, mk(10000), mk(30000), time.Second*time.Duration(scale))
		}
		if err != nil {
			return "construct: " + err.Error()
		}
		defer qq.Close()
		return resultStr(qq.Exec(ctx))
	}
	for k := 0; k < 6; k++ {
		got, want := run(eng, st, k), run(reng, ref, k)
		c.Trans(1)
		c.Trace()
		if got != want {
			c.Failf("evaluation %d of %s:\n got %s\nwant %s\ndata %v", k, expr, got, want, data)
		}
		c.StateHash(vh.Hash(want))
		c.Outcome(want)
	}
}

// iterSeqs explores sequences of operations on two iterators of one series.
func iterSeqs(h *vh.H) {
	datas := [][]int64{{0, 1, 3}, {1, 1, 2, 4}, {2}, {0, 5000000, 9000000000000000}, {-9000000000000000000, 0, 9000000000000000000}}
	near := []int64{0, 1, 2, 3, 5}
	targets := [][]int64{near, near, near, {1, 5000000, 5000001, 9000000000000000, 9000000000000001}, {math.MinInt64, -1, 0, 1, math.MaxInt64}}
	// ops: 0 next(A) 1..5 seekA(targets) 6.. same for B
	for d := range datas {
		vh.Seqs(12, 1, h.Pick(4, 5), func(ix []int) {
			d := d
			h.Case(func() string { return fmt.Sprintf("iterators over samples at %v ops %v", datas[d], ix) }, func(c *vh.C) {
				st := prom.NewRangeStorage()
				ref := &refStore{}
				for i, t := range datas[d] {
					p := []prom.ParsedSeries{{Labels: c03Series[0], Timestamp: t, Value: float64(i)}}
					if err := st.LoadData(p); err != nil {
						c.Failf("%v", err)
					}
					ref.load(p)
				}
				q, _ := st.Querier(context.Background(), 0, 10)
				set := q.Select(false, nil, everything)
				if !set.Next() {
					c.Failf("no series")
				}
				ser := set.At()
				type iter interface {
					Next() bool
					Seek(int64) bool
					At() (int64, float64)
				}
				got := []iter{ser.Iterator(), ser.Iterator()}
				want := []iter{ref.series[0].Iterator(), ref.series[0].Iterator()}
				done := []bool{false, false}
				for n, x := range ix {
					w := x / 6
					if done[w] {
						continue
					}
					c.Trans(1)
					var g, r bool
					if x%6 == 0 {
						g, r = got[w].Next(), want[w].Next()
					} else {
						t := targets[d][x%6-1]
						g, r = got[w].Seek(t), want[w].Seek(t)
					}
					if g != r {
						c.Failf("op %d returned %v want %v", n, g, r)
					}
					if !r {
						done[w] = true
						continue
					}
					gt, gv := got[w].At()
					wt, wv := want[w].At()
					if gt != wt || gv != wv {
						c.Failf("op %d is at %d,%v want %d,%v", n, gt, gv, wt, wv)
					}
				}
				c.Trace()
				c.StateHash(vh.Hash(fmt.Sprint(d, want, done)))
			})
		})
	}
}
