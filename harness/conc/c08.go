package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif/vh"
	"verif/vsync"
)

// The operations threads perform.
var c08Ops = []string{"scrape1", "scrape2", "set n", "manual", "names", "labels", "values", "failing scrape", "set bad", "complete"}

const (
	oScrape1 = iota
	oScrape2
	oSet
	oManual
	oNames
	oLabels
	oValues
	oFail
	oBad
	oComplete
)

func boundsC08(q bool) string {
	return fmt.Sprintf("every interleaving with <=%d preemptions of every pair of single operations out of %d (%s), <=%d of every pair of threads with 2 and 1 operations, <=%d of every triple of single operations%s; instant and range mode; scheduling points: lock operations, channel operations, goroutine starts, source and callback",
		map[bool]int{true: 3, false: 6}[q], len(c08Ops), strings.Join(c08Ops, ", "), map[bool]int{true: 1, false: 3}[q], map[bool]int{true: 1, false: 2}[q], map[bool]string{true: "", false: ", <=1 of every pair of threads with 2 operations each"}[q])
}

func runC08(h *vh.H) {
	n := len(c08Ops)
	for _, instant := range []bool{true, false} {
		instant := instant
		run := func(bound int, threads ...[]int) {
			h.Case(func() string {
				s := ""
				for _, t := range threads {
					var l []string
					for _, o := range t {
						l = append(l, c08Ops[o])
					}
					s += " [" + strings.Join(l, "; ") + "]"
				}
				return fmt.Sprintf("instant=%v bound=%d threads%s", instant, bound, s)
			}, func(c *vh.C) { caseC08(c, instant, bound, threads) })
		}
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				run(h.Pick(3, 6), []int{a}, []int{b})
			}
		}
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				for d := b; d < n; d++ {
					if (a == oComplete || b == oComplete || d == oComplete) && h.Quick() && !(a == oScrape1 && b == oScrape2) {
						continue
					}
					run(h.Pick(1, 2), []int{a}, []int{b}, []int{d})
				}
			}
		}
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				for d := 0; d < n; d++ {
					if (a == oComplete || b == oComplete || d == oComplete) && h.Quick() {
						continue
					}
					run(h.Pick(1, 3), []int{a, b}, []int{d})
				}
			}
		}
		if h.Quick() {
			continue
		}
		vh.Product([]int{n, n, n, n}, func(ix []int) {
			if ix[0]*n+ix[1] <= ix[2]*n+ix[3] {
				run(1, []int{ix[0], ix[1]}, []int{ix[2], ix[3]})
			}
		})
	}
}

// batches of samples; batch 0 is there from the start.
var c08Batches = [][]prom.ParsedSeries{batch(0), batch(1), batch(2)}

func batch(k int) []prom.ParsedSeries {
	ts := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).UnixNano()/1e6 - 20000 + int64(k)*5000
	return []prom.ParsedSeries{
		{Labels: labels.FromStrings("__name__", "m", "s", "shared"), Timestamp: ts, Value: float64(k)},
		{Labels: labels.FromStrings("__name__", "m", "b", fmt.Sprint("b", k)), Timestamp: ts, Value: float64(10 * k)},
		{Labels: labels.FromStrings("__name__", "n", "b", fmt.Sprint("c", k), fmt.Sprint("l", k), "x"), Timestamp: ts, Value: float64(k)},
		{Labels: labels.FromStrings("__name__", fmt.Sprint("o", k)), Timestamp: ts, Value: float64(k)},
	}
}

var c08Queries = []string{"m", "n"}

type ctxKey struct{}

type c08Source struct{}

var errC08 = errors.New("source failed")

func (c08Source) ScrapePrometheusEndpoint(ctx context.Context, _ time.Time) ([]prom.ParsedSeries, error) {
	vsync.Point()
	k := ctx.Value(ctxKey{}).(int)
	data := append([]prom.ParsedSeries(nil), c08Batches[(k+3)%3]...)
	if k < 0 {
		return data, errC08
	}
	return data, nil
}

// event is what one operation did.
type event struct {
	op         int
	begin, end int64
	err        error
	result     string // of the evaluation
	calls      int
	set        sets.String
	setRead    string // as read when it was returned
	setLater   string // as read later
}

type c08World struct {
	pd     *prom.PeriodicData
	events [8][]event
	cb     [16]*event
}

// current is the event of the calling thread.
//
//go:norace
func (w *c08World) current() *event {
	if i := vsync.Self(); i >= 0 {
		return w.cb[i]
	}
	return w.cb[15]
}

func (w *c08World) do(tid int, ops []int) {
	ctx := context.Background()
	for _, op := range ops {
		e := &w.events[tid][len(w.events[tid]) : len(w.events[tid])+1][0]
		w.events[tid] = w.events[tid][:len(w.events[tid])+1]
		*e = event{op: op}
		w.cb[tid] = e
		e.begin = vsync.Stamp()
		switch op {
		case oScrape1, oScrape2:
			e.err = w.pd.Scrape(context.WithValue(ctx, ctxKey{}, op-oScrape1+1))
		case oFail:
			e.err = w.pd.Scrape(context.WithValue(ctx, ctxKey{}, -1))
		case oSet:
			e.err = w.pd.SetQuery(ctx, c08Queries[1])
		case oBad:
			e.err = w.pd.SetQuery(ctx, "m{")
		case oManual:
			e.err = w.pd.ManuallyExecuteQuery(ctx, func(r *promql.Result) error { return w.callback(r) })
		case oNames:
			e.set = w.pd.GetIndex().GetMetricNames()
		case oLabels:
			e.set = w.pd.GetIndex().GetStoredDimensionsForMetric("n")
		case oValues:
			e.set = w.pd.GetIndex().GetStoredValuesForMetricAndDimension("m", "b")
		case oComplete:
			s := sets.NewString()
			for _, m := range earley.NewPromQLCompleter(w.pd.GetIndex()).GenerateSuggestions("n{", 2) {
				s.Insert(m.GetValue())
			}
			e.set = s
		}
		e.end = vsync.Stamp()
		if e.set != nil {
			e.setRead = setStr(e.set)
		}
	}
	// what was handed out is read again after the others went on
	vsync.Point()
	for i := range w.events[tid] {
		if e := &w.events[tid][i]; e.set != nil {
			e.setLater = setStr(e.set)
		}
	}
}

func setStr(s sets.String) string {
	var l []string
	for k := range s {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (w *c08World) callback(r *promql.Result) error {
	vsync.Point()
	e := w.current()
	e.calls++
	e.result = resultStr(r)
	return nil
}

func newC08(instant bool) *c08World {
	w := &c08World{pd: prom.NewPeriodicData(c08Source{}, prom.DefaultEngineOptions(time.Hour, 100000))}
	for i := range w.events {
		w.events[i] = make([]event, 0, 4)
	}
	w.pd.Times = prom.Range{Window: 15 * time.Second, Interval: 5 * time.Second, Instant: instant}
	w.pd.Callback = func(r *promql.Result) error { return w.callback(r) }
	w.cb[15] = &event{}
	ctx := context.Background()
	if err := w.pd.SetQuery(ctx, c08Queries[0]); err != nil {
		panic(err)
	}
	if err := w.pd.Scrape(context.WithValue(ctx, ctxKey{}, 0)); err != nil {
		panic(err)
	}
	return w
}

func caseC08(c *vh.C, instant bool, bound int, threads [][]int) {
	var fail string
	done := false
	// in a test of its own, since the testing package fails it upon a data race
	theT.Run("case", func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			defer func() { done = true }()
			defer vh.Recover(&fail)
			want := expectations(instant)
			e := &vsync.Explorer{Bound: bound, MaxSteps: 5000}
			for e.Next() {
				if e.Runs%16 == 0 {
					c.Touch()
					if c.Expired() {
						break
					}
				}
				w := newC08(instant)
				first := vsync.Stamp()
				msg := e.Run(func() {
					for i, ops := range threads {
						i, ops := i, ops
						vsync.Spawn(func() { w.do(i, ops) })
					}
				}, nil)
				if msg == "" {
					msg = w.judge(threads, want)
				}
				if msg != "" {
					c.Failf("%s\nschedule: %s", msg, e.Trace())
				}
				c.Trace()
				obs := []string{fmt.Sprint(instant)}
				for i, ops := range threads {
					for j, o := range ops {
						ev := &w.events[i][j]
						obs = append(obs, c08Ops[o], fmt.Sprint(ev.err), ev.result, ev.setRead)
					}
				}
				c.Outcome(obs...)
				for i := range threads {
					for j := range w.events[i] {
						ev := &w.events[i][j]
						obs = append(obs, fmt.Sprint(ev.begin-first, ev.end-first))
					}
				}
				c.State(obs...)
			}
			c.Trans(int(e.Steps))
			c.NoteMax("longest schedule", e.MaxDepth)
			c.Note("schedules", e.Runs)
		})
	})
	if fail != "" {
		c.Failf("%s", fail)
	}
	if !done {
		c.Failf("bubble ended early")
	}
}

// expectations gives the result of every query over every set of batches.
func expectations(instant bool) map[[2]int]string {
	out := map[[2]int]string{}
	for q := range c08Queries {
		for set := 1; set < 8; set += 2 {
			pd := prom.NewPeriodicData(c08Source{}, prom.DefaultEngineOptions(time.Hour, 100000))
			pd.Times = prom.Range{Window: 15 * time.Second, Interval: 5 * time.Second, Instant: instant}
			if err := pd.SetQuery(context.Background(), c08Queries[q]); err != nil {
				panic(err)
			}
			pd.Callback = func(r *promql.Result) error { out[[2]int{q, set}] = resultStr(r); return nil }
			for k := 0; k < 3; k++ {
				if set&(1<<k) != 0 {
					if err := pd.Scrape(context.WithValue(context.Background(), ctxKey{}, k)); err != nil {
						panic(err)
					}
				}
			}
		}
	}
	return out
}

// judge compares a finished run with what its history allows.
func (w *c08World) judge(threads [][]int, want map[[2]int]string) string {
	inf := int64(math.MaxInt64)
	var all []*event
	for i := range threads {
		if len(w.events[i]) != len(threads[i]) {
			return fmt.Sprintf("thread %d performed %d operations", i, len(w.events[i]))
		}
		for j := range w.events[i] {
			all = append(all, &w.events[i][j])
		}
	}
	// afterwards: the final state
	last := &event{op: oManual, begin: vsync.Stamp()}
	w.cb[15] = last
	last.err = w.pd.ManuallyExecuteQuery(context.Background(), func(r *promql.Result) error { return w.callback(r) })
	last.end = inf
	all = append(all, last)
	for _, op := range []int{oNames, oLabels, oValues} {
		e := &event{op: op, begin: last.begin, end: inf}
		switch op {
		case oNames:
			e.set = w.pd.GetIndex().GetMetricNames()
		case oLabels:
			e.set = w.pd.GetIndex().GetStoredDimensionsForMetric("n")
		default:
			e.set = w.pd.GetIndex().GetStoredValuesForMetricAndDimension("m", "b")
		}
		e.setRead = setStr(e.set)
		e.setLater = e.setRead
		all = append(all, e)
	}
	for _, e := range all {
		switch e.op {
		case oFail:
			if !errors.Is(e.err, errC08) || e.calls != 0 {
				return fmt.Sprintf("failing scrape returns %v, %d evaluations", e.err, e.calls)
			}
			continue
		case oBad:
			if e.err == nil {
				return "a query that doesn't parse is accepted"
			}
			continue
		}
		if e.err != nil {
			return fmt.Sprintf("%s fails: %v", c08Ops[e.op], e.err)
		}
		must, may := 1, 1
		for _, s := range all {
			if s.op == oScrape1 || s.op == oScrape2 {
				bit := 1 << (s.op - oScrape1 + 1)
				if s.end < e.begin || s == e {
					must |= bit
				}
				if s.begin < e.end {
					may |= bit
				}
			}
		}
		switch e.op {
		case oScrape1, oScrape2, oManual:
			if e.calls != 1 {
				return fmt.Sprintf("%s: %d evaluations", c08Ops[e.op], e.calls)
			}
			q0, q1 := true, false
			for _, s := range all {
				if s.op == oSet {
					q1 = q1 || s.begin < e.end
					q0 = q0 && s.end >= e.begin
				}
			}
			ok := false
			for set := 1; set < 8; set += 2 {
				if set&must == must && set&^may == 0 {
					ok = ok || q0 && want[[2]int{0, set}] == e.result || q1 && want[[2]int{1, set}] == e.result
				}
			}
			if !ok {
				return fmt.Sprintf("%s evaluates to %s, which no query in force gives over complete scrapes (must %03b, may %03b)", c08Ops[e.op], e.result, must, may)
			}
		case oNames, oLabels, oValues, oComplete:
			if e.setRead != e.setLater {
				return fmt.Sprintf("%s returned %s, which later became %s", c08Ops[e.op], e.setRead, e.setLater)
			}
			if !prefixRead(e, must, may) {
				return fmt.Sprintf("%s returns %s, which no prefix of the updates gives (must %03b, may %03b)", c08Ops[e.op], e.setRead, must, may)
			}
			for _, o := range all {
				if o.op == e.op && o.end < e.begin && !e.set.IsSuperset(o.set) {
					return fmt.Sprintf("%s returns %s after %s", c08Ops[e.op], e.setRead, o.setRead)
				}
			}
		}
	}
	return ""
}

// prefixRead tells whether the read's result is that of some prefixes of the batches.
func prefixRead(e *event, must, may int) bool {
	var lens [3][]int
	for k := range lens {
		for n := 0; n <= 4; n++ {
			if (may&(1<<k) != 0 || n == 0) && (must&(1<<k) == 0 || n == 4) {
				lens[k] = append(lens[k], n)
			}
		}
	}
	for _, a := range lens[0] {
		for _, b := range lens[1] {
			for _, d := range lens[2] {
				s := map[string]bool{}
				for k, n := range []int{a, b, d} {
					for _, p := range c08Batches[k][:n] {
						name := p.Labels.Get("__name__")
						switch e.op {
						case oNames:
							s[name] = true
						case oLabels, oComplete:
							if name == "n" {
								for _, l := range p.Labels {
									if l.Name != "__name__" {
										s[l.Name] = true
									}
								}
							}
						case oValues:
							if v := p.Labels.Get("b"); v != "" && name == "m" {
								s[v] = true
							}
						}
					}
				}
				var l []string
				for k := range s {
					l = append(l, k)
				}
				sort.Strings(l)
				if e.op == oComplete {
					ok := true
					for _, x := range l {
						ok = ok && e.set.Has(x)
					}
					for x := range e.set {
						if strings.HasPrefix(x, "l") || x == "b" {
							ok = ok && s[x]
						}
					}
					if ok {
						return true
					}
				} else if strings.Join(l, ",") == e.setRead {
					return true
				}
			}
		}
	}
	return false
}

func resultStr(r *promql.Result) string {
	if r.Err != nil {
		return "err: " + r.Err.Error()
	}
	var ls []string
	switch v := r.Value.(type) {
	case promql.Vector:
		for _, s := range v {
			ls = append(ls, fmt.Sprintf("%s %v @%d", s.Metric, s.V, s.T))
		}
	case promql.Matrix:
		for _, s := range v {
			ls = append(ls, fmt.Sprintf("%s %v", s.Metric, s.Points))
		}
	default:
		return fmt.Sprintf("%T", r.Value)
	}
	sort.Strings(ls)
	return strings.Join(ls, "; ")
}
