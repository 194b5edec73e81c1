package main

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/promql/parser"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif/vh"
)

var c07Ops = []string{"scrape-ok", "advance 20s", "set m", "set bad", "scrape-srcfail", "scrape-cbfail", "manual", "set rate(m[1m])", "set m+on()m(exec error)", "set empty", "scrape-ok-late", "manual-cbfail", "manual-cancelled", "other times"}

func boundsC07(q bool) string {
	return fmt.Sprintf("every sequence of <=%d operations over {%d operations: %v} for an instant and two ranges under a virtual clock (at odd instants), final observations of every prefix; every pair of operations repeated to 9 and 40 (thorough: 130, 300) operations", map[bool]int{true: 4, false: 5}[q], len(c07Ops), c07Ops)
}

func runC07(h *vh.H) {
	for _, times := range []prom.Range{{Window: time.Minute, Interval: 15 * time.Second, Instant: true}, {Window: time.Minute, Interval: 15 * time.Second}, {Window: 47200 * time.Millisecond, Interval: 7300 * time.Millisecond}} {
		run := func(ix []int) {
			ix = append([]int{}, ix...)
			h.Case(func() string {
				s := ""
				for _, x := range ix {
					s += " [" + c07Ops[x] + "]"
				}
				return fmt.Sprintf("%+v ops:%s", times, s)
			}, func(c *vh.C) {
				// one bubble per case: virtual time
				var fail string
				done := false
				synctest.Test(theT, func(t *testing.T) {
					defer func() { done = true }()
					defer vh.Recover(&fail)
					caseC07(c, ix, times)
				})
				if fail != "" {
					c.Failf("%s", fail)
				}
				if !done {
					c.Failf("bubble ended early")
				}
			})
		}
		vh.Seqs(len(c07Ops), 1, h.Pick(4, 5), run)
		lengths := []int{9, 40}
		if !h.Quick() {
			lengths = []int{9, 40, 130, 300}
		}
		vh.Pumped(len(c07Ops), lengths, run)
	}
}

type fakeSource struct {
	n    int
	fail bool
	late bool
	now  []time.Time
	last []prom.ParsedSeries
}

var errSource = errors.New("source failed")
var errCallback = errors.New("callback failed")

func (f *fakeSource) ScrapePrometheusEndpoint(ctx context.Context, nowish time.Time) ([]prom.ParsedSeries, error) {
	f.now = append(f.now, nowish)
	f.n++
	ts := nowish.UnixNano() / 1e6
	if f.late {
		ts -= 30000
	}
	d := []prom.ParsedSeries{
		{Labels: labels.FromStrings("__name__", "m", "j", "x"), Timestamp: ts, Value: float64(f.n)},
		{Labels: labels.FromStrings("__name__", "m", "j", fmt.Sprintf("y%d", f.n%2)), Timestamp: ts, Value: float64(f.n * 10)},
	}
	f.last = d
	if f.fail {
		return d, errSource // partial data with an error must be ignored
	}
	return d, nil
}

func caseC07(c *vh.C, ix []int, times prom.Range) {
	time.Sleep(437250 * time.Microsecond) // no round instants
	ctx := context.Background()
	opts := prom.DefaultEngineOptions(time.Hour, 100000)
	src := &fakeSource{}
	pd := prom.NewPeriodicData(src, opts)
	pd.Times = times
	ref := &refStore{}
	refIdx := map[string]bool{}
	eng := promql.NewEngine(opts)
	query := ""

	var cbFail error
	var calls []string
	pd.Callback = func(r *promql.Result) error {
		calls = append(calls, "cb:"+resultStr(r))
		return cbFail
	}
	cancelled, cancel := context.WithCancel(ctx)
	cancel()
	qctx := ctx // what the expected result is computed in
	expect := func() (string, bool) {
		var q promql.Query
		var err error
		now := time.Now()
		if times.Instant {
			q, err = eng.NewInstantQuery(ref, query, now)
		} else {
			q, err = eng.NewRangeQuery(ref, query, now.Add(-times.Window), now, times.Interval)
		}
		if err != nil {
			return "", false
		}
		defer q.Close()
		return resultStr(q.Exec(qctx)), true
	}
	for n, x := range ix {
		calls = nil
		cbFail = nil
		src.fail, src.late = false, false
		c.Trans(1)
		set := func(s string) {
			err := pd.SetQuery(ctx, s)
			_, perr := parser.ParseExpr(s)
			if (err != nil) != (perr != nil) {
				c.Failf("op %d: SetQuery(%q) = %v, parse error is %v", n, s, err, perr)
			}
			if perr == nil {
				query = s
			}
			if len(calls) != 0 {
				c.Failf("op %d: SetQuery invoked the callback", n)
			}
		}
		wantCalls := func(prefix string) bool {
			w, ok := expect()
			if !ok {
				if len(calls) != 0 {
					c.Failf("op %d: callback invoked although the query cannot be evaluated: %v", n, calls)
				}
				return false
			}
			if len(calls) != 1 || calls[0] != prefix+w {
				c.Failf("op %d: callbacks %q, want exactly one with %q", n, calls, prefix+w)
			}
			c.Outcome(w)
			return true
		}
		scrape := func(cbErr error, srcFail bool) {
			cbFail, src.fail = cbErr, srcFail
			before := len(src.now)
			err := pd.Scrape(ctx)
			if len(src.now) != before+1 {
				c.Failf("op %d: source scraped %d times", n, len(src.now)-before)
			}
			if !src.now[before].Equal(time.Now()) {
				c.Failf("op %d: source given time %v, now is %v", n, src.now[before], time.Now())
			}
			if srcFail {
				if !errors.Is(err, errSource) {
					c.Failf("op %d: failing source gives error %v", n, err)
				}
				if len(calls) != 0 {
					c.Failf("op %d: failing source, but callback invoked", n)
				}
				return
			}
			ref.load(src.last)
			for _, s := range src.last {
				refIdx[s.Labels.Get("j")] = true
			}
			ok := wantCalls("cb:")
			switch {
			case !ok:
				if err == nil {
					c.Failf("op %d: query %q cannot be evaluated but Scrape succeeded", n, query)
				}
			case cbErr != nil:
				if !errors.Is(err, cbErr) {
					c.Failf("op %d: callback error not reported: %v", n, err)
				}
			case err != nil:
				c.Failf("op %d: Scrape: %v", n, err)
			}
		}
		manual := func(cbErr error) {
			err := pd.ManuallyExecuteQuery(qctx, func(r *promql.Result) error {
				calls = append(calls, "man:"+resultStr(r))
				return cbErr
			})
			ok := wantCalls("man:")
			if !ok && err == nil {
				c.Failf("op %d: manual execution of %q succeeded", n, query)
			}
			if ok && cbErr == nil && err != nil || ok && cbErr != nil && !errors.Is(err, cbErr) {
				c.Failf("op %d: manual execution returned %v, callback %v", n, err, cbErr)
			}
		}
		switch c07Ops[x] {
		case "set m":
			set("m")
		case "set rate(m[1m])":
			set("rate(m[1m])")
		case "set m+on()m(exec error)":
			set("m + on() m")
		case "set bad":
			set("sum(")
		case "set empty":
			set("")
		case "scrape-ok":
			scrape(nil, false)
		case "scrape-ok-late":
			src.late = true
			scrape(nil, false)
		case "scrape-srcfail":
			scrape(nil, true)
		case "scrape-cbfail":
			scrape(errCallback, false)
		case "manual":
			manual(nil)
		case "manual-cbfail":
			manual(errCallback)
		case "manual-cancelled":
			qctx = cancelled
			manual(nil)
			qctx = ctx
		case "other times":
			times = prom.Range{Window: 30 * time.Second, Interval: 10 * time.Second, Instant: !times.Instant}
			pd.Times = times
		case "advance 20s":
			time.Sleep(20317 * time.Millisecond)
		}
		if pd.Query != query {
			c.Failf("op %d: the query is %q, want %q", n, pd.Query, query)
		}
		if g, w := setStr(pd.GetIndex().GetStoredValuesForMetricAndDimension("m", "j")), keysStr(refIdx); g != w {
			c.Failf("op %d: index has values %s want %s", n, g, w)
		}
		if len(refIdx) == 0 && len(pd.GetIndex().GetMetricNames()) != 0 {
			c.Failf("op %d: index has metrics before any successful scrape", n)
		}
	}
	c.Trace()
	c.State(query, dumpStr(ref.dump(everything)))
}
