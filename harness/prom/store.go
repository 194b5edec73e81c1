package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/storage"
	"github.com/prometheus/prometheus/tsdb/chunkenc"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
)

// The reference storage: a list of series, each a time-sorted list of samples.

// {__name__="m",v=collA}, {..., v=collB} and {..., v=collC} all have the same
// 64-bit label hash (xxhash lanes are invertible, so such sets are easy to
// construct; checked by runC02).
const (
	collA = "zzz12345678------------------------abcdefgh=========="
	collB = "zzzUigaaaaa------------------------U6kLb6Qv=========="
	collC = "zzzevLxCfaa------------------------ZMt3qDOs=========="
)

type sample struct {
	t int64
	v float64
}

type refSeries struct {
	lbls    labels.Labels
	samples []sample
}

type refStore struct{ series []*refSeries }

func (r *refStore) add(l labels.Labels, t int64, v float64) {
	for _, s := range r.series {
		if labels.Equal(s.lbls, l) {
			i := len(s.samples)
			for i > 0 && s.samples[i-1].t > t {
				i--
			}
			s.samples = append(s.samples, sample{})
			copy(s.samples[i+1:], s.samples[i:])
			s.samples[i] = sample{t, v}
			return
		}
	}
	r.series = append(r.series, &refSeries{l, []sample{{t, v}}})
}

func (r *refStore) load(ps []prom.ParsedSeries) {
	for _, p := range ps {
		r.add(p.Labels, p.Timestamp, p.Value)
	}
}

func (r *refStore) clean(olderThan int64) {
	var keep []*refSeries
	for _, s := range r.series {
		var ks []sample
		for _, x := range s.samples {
			if x.t >= olderThan {
				ks = append(ks, x)
			}
		}
		s.samples = ks
		if len(ks) > 0 {
			keep = append(keep, s)
		}
	}
	r.series = keep
}

func matchAll(l labels.Labels, ms []*labels.Matcher) bool {
	for _, m := range ms {
		if !m.Matches(l.Get(m.Name)) {
			return false
		}
	}
	return true
}

func (r *refStore) Querier(ctx context.Context, mint, maxt int64) (storage.Querier, error) {
	return refQuerier{r}, nil
}

type refQuerier struct{ r *refStore }

func (q refQuerier) Close() error { return nil }
func (q refQuerier) LabelValues(string, ...*labels.Matcher) ([]string, storage.Warnings, error) {
	panic("unused")
}
func (q refQuerier) LabelNames(...*labels.Matcher) ([]string, storage.Warnings, error) {
	panic("unused")
}
func (q refQuerier) Select(_ bool, _ *storage.SelectHints, ms ...*labels.Matcher) storage.SeriesSet {
	var out []*refSeries
	for _, s := range q.r.series {
		if matchAll(s.lbls, ms) {
			out = append(out, s)
		}
	}
	return &refSet{out, -1}
}

type refSet struct {
	l []*refSeries
	i int
}

func (s *refSet) Next() bool                 { s.i++; return s.i < len(s.l) }
func (s *refSet) At() storage.Series         { return s.l[s.i] }
func (s *refSet) Err() error                 { return nil }
func (s *refSet) Warnings() storage.Warnings { return nil }

func (s *refSeries) Labels() labels.Labels       { return s.lbls }
func (s *refSeries) Iterator() chunkenc.Iterator { return &refIter{s.samples, -1} }

type refIter struct {
	s []sample
	i int
}

func (r *refIter) Next() bool { r.i++; return r.i < len(r.s) }
func (r *refIter) Seek(t int64) bool {
	if r.i < 0 {
		r.i = 0
	}
	for r.i < len(r.s) && r.s[r.i].t < t {
		r.i++
	}
	return r.i < len(r.s)
}
func (r *refIter) At() (int64, float64) { return r.s[r.i].t, r.s[r.i].v }
func (r *refIter) Err() error           { return nil }

// dump reads everything a selection returns: labels -> samples.  It fails on
// duplicate series.
func dump(q storage.Querier, ms ...*labels.Matcher) (map[string][]sample, error) {
	set := q.Select(false, nil, ms...)
	out := map[string][]sample{}
	for set.Next() {
		s := set.At()
		k := s.Labels().String()
		if _, dup := out[k]; dup {
			return nil, fmt.Errorf("series %s returned twice", k)
		}
		l := []sample{}
		it := s.Iterator()
		for it.Next() {
			t, v := it.At()
			l = append(l, sample{t, v})
		}
		if it.Err() != nil {
			return nil, it.Err()
		}
		out[k] = l
	}
	if set.Err() != nil {
		return nil, set.Err()
	}
	return out, nil
}

func (r *refStore) dump(ms ...*labels.Matcher) map[string][]sample {
	out := map[string][]sample{}
	for _, s := range r.series {
		if matchAll(s.lbls, ms) {
			out[s.lbls.String()] = s.samples
		}
	}
	return out
}

func dumpStr(m map[string][]sample) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s%v ", k, m[k])
	}
	return sb.String()
}

func sameDump(a, b map[string][]sample) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].t != y[i].t || math.Float64bits(x[i].v) != math.Float64bits(y[i].v) {
				return false
			}
		}
	}
	return true
}

func mustMatcher(t labels.MatchType, n, v string) *labels.Matcher {
	m, err := labels.NewMatcher(t, n, v)
	if err != nil {
		panic(err)
	}
	return m
}

var everything = mustMatcher(labels.MatchRegexp, "__name__", ".*")

// resultStr renders an engine result canonically (order of instant vectors is
// not specified and is normalised; range results are sorted by the engine).
func resultStr(r *promql.Result) string {
	if r.Err != nil {
		return "err: " + r.Err.Error()
	}
	switch v := r.Value.(type) {
	case promql.Vector:
		var ls []string
		for _, s := range v {
			ls = append(ls, fmt.Sprintf("%s %x @%d", s.Metric, math.Float64bits(s.V), s.T))
		}
		sort.Strings(ls)
		return "vector " + strings.Join(ls, "; ")
	case promql.Matrix:
		var ls []string
		for _, s := range v {
			var sb strings.Builder
			fmt.Fprintf(&sb, "%s", s.Metric)
			for _, p := range s.Points {
				fmt.Fprintf(&sb, " %x@%d", math.Float64bits(p.V), p.T)
			}
			ls = append(ls, sb.String())
		}
		sort.Strings(ls)
		return "matrix " + strings.Join(ls, "; ")
	case promql.Scalar:
		return fmt.Sprintf("scalar %x @%d", math.Float64bits(v.V), v.T)
	case promql.String:
		return fmt.Sprintf("string %q @%d", v.V, v.T)
	}
	return fmt.Sprintf("%T", r.Value)
}
