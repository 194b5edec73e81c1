package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif/vh"
)

var c06Universe = []labels.Labels{
	labels.FromStrings("__name__", "m", "a", "1"),
	labels.FromStrings("__name__", "m", "a", "2"),
	labels.FromStrings("__name__", "m"),
	labels.FromStrings("__name__", "n", "a", "1"),
	labels.FromStrings("__name__", "m", "a", "1", "b", "1"),
	labels.FromStrings("a", "9", "c", "1"), // nameless
	labels.FromStrings("__name__", "n", "b", "m", "m", "1"),
	labels.FromStrings("__name__", "a", "n", "b"),
	labels.FromStrings(),
}

// label sets of equal hash, and labels of empty value
var c06Odd = []labels.Labels{
	labels.FromStrings("__name__", "m", "v", collA),
	labels.FromStrings("__name__", "m", "v", collB),
	labels.FromStrings("__name__", "m", "v", ""),
	{{Name: "__name__", Value: "m"}, {Name: "w", Value: ""}},
	labels.FromStrings("__name__", "m", "v", "1,2"),
	labels.FromStrings("__name__", "m", "v", "1\", w=\"2"),
	labels.FromStrings("__name__", "m", "v", "1", "w", "2"),
}

// label names that are special elsewhere but not to the index
var c06Special = []string{"instance", "job", "le", "quantile", "code", "__address__", "__", "name", "A"}

func boundsC06(q bool) string {
	return fmt.Sprintf("every sequence of <=%d updates over %d label sets, and of <=%d over the combinations of one of %d commonly used label names (2 values, with and without another label), and of <=%d over %d label sets of equal hash, with empty values or with values that look like labels, all queries after every update, snapshots re-read at the end, and the caller mutating returned sets", map[bool]int{true: 5, false: 6}[q], len(c06Universe), map[bool]int{true: 3, false: 5}[q], len(c06Special), map[bool]int{true: 4, false: 5}[q], len(c06Odd)) + fmt.Sprintf("; every number 4-20 of metrics, of labels of a metric and of values of a label likewise; %d metrics, labels of a metric and values of a label, one after the other", c06Many(q))
}

func c06Many(q bool) int { return map[bool]int{true: 1100, false: 2100}[q] }

func runC06(h *vh.H) {
	over := func(universe []labels.Labels, depth int, names []string) {
		vh.Seqs(len(universe), 0, depth, func(ix []int) {
			for _, mutate := range []bool{false, true} {
				mutate := mutate
				h.Case(func() string {
					s := ""
					for _, x := range ix {
						s += " " + universe[x].String()
					}
					return fmt.Sprintf("updates:%s mutate-returned=%v", s, mutate)
				}, func(c *vh.C) { caseC06(c, universe, ix, names, mutate) })
			}
		})
	}
	over(c06Universe, h.Pick(5, 6), []string{"m", "n", "a", "b", "", "zz", "__name__"})
	over(c06Odd, h.Pick(4, 5), []string{"m", "v", "w", "", "__name__"})
	for _, l := range c06Special {
		over([]labels.Labels{
			labels.FromStrings("__name__", "m", l, "1"),
			labels.FromStrings("__name__", "m", l, "2"),
			labels.FromStrings("__name__", "m", l, "1", "a", "1"),
			labels.FromStrings("__name__", "m", l, "2", "a", "2"),
			labels.FromStrings("__name__", "n", l, "2"),
			labels.FromStrings("__name__", "m", l, "1", "zz", "2"),
		}, h.Pick(3, 5), []string{"m", "n", "a", "zz", l, "__name__"})
	}
	// sets of every small size, all of what was handed out kept or meddled with
	for kind := 0; kind < 3; kind++ {
		var us []labels.Labels
		names := []string{"m", "a"}
		for i := 0; i < 20; i++ {
			v := fmt.Sprint("v", i)
			names = append(names, v)
			us = append(us, []labels.Labels{
				labels.FromStrings("__name__", v, "a", "1"), labels.FromStrings("__name__", "m", v, "1"), labels.FromStrings("__name__", "m", "a", v),
			}[kind])
		}
		for n := 4; n <= len(us); n++ {
			for _, twice := range []bool{false, true} {
				for _, mutate := range []bool{false, true} {
					h.Case(func() string {
						return fmt.Sprintf("%d %s, each twice=%v, mutate-returned=%v", n, []string{"metrics", "labels", "values"}[kind], twice, mutate)
					}, func(c *vh.C) {
						var ix []int
						for i := 0; i < n; i++ {
							ix = append(ix, i)
							if twice {
								ix = append(ix, i/2)
							}
						}
						caseC06(c, us, ix, names, mutate)
					})
				}
			}
		}
	}
	// many of a kind
	n := c06Many(h.Quick())
	for kind := 0; kind < 3; kind++ {
		h.Case(func() string { return fmt.Sprintf("%d %s", n, []string{"metrics", "labels", "values"}[kind]) }, func(c *vh.C) {
			idx := prom.NewIndex()
			want := map[string]bool{}
			for i := 0; i < n; i++ {
				v := fmt.Sprint("v", i)
				l := []labels.Labels{
					labels.FromStrings("__name__", v, "a", "1"), labels.FromStrings("__name__", "m", v, "1"), labels.FromStrings("__name__", "m", "a", v),
				}[kind]
				idx.UpdateMetric(prom.ParsedSeries{Labels: l})
				want[v] = true
				c.Trans(1)
				var got sets.String
				switch kind {
				case 0:
					got = idx.GetMetricNames()
				case 1:
					got = idx.GetStoredDimensionsForMetric("m")
				case 2:
					got = idx.GetStoredValuesForMetricAndDimension("m", "a")
				}
				if len(got) != i+1 || !got.Has(v) || (i%97 == 0 || i == n-1) && setStr(got) != keysStr(want) {
					c.Failf("after %d updates got [%s]", i+1, setStr(got))
				}
				c.Touch()
			}
			c.Trace()
		})
	}
}

func caseC06(c *vh.C, universe []labels.Labels, ix []int, names []string, mutate bool) {
	idx := prom.NewIndex()
	ref := map[string]map[string]map[string]bool{}
	type snap struct {
		s    sets.String
		want string
		what string
	}
	var snaps []snap
	observe := func() {
		check := func(what string, got sets.String, want map[string]bool) {
			g, w := setStr(got), keysStr(want)
			if g != w {
				c.Failf("%s: got [%s] want [%s]", what, g, w)
			}
			if mutate {
				if got != nil {
					got.Insert("ZZZ")
					for k := range got {
						if k != "ZZZ" {
							got.Delete(k)
						}
					}
				}
			} else {
				snaps = append(snaps, snap{got, w, what})
			}
		}
		m := map[string]bool{}
		for k := range ref {
			m[k] = true
		}
		check("metric names", idx.GetMetricNames(), m)
		for _, n := range names {
			d := map[string]bool{}
			for k := range ref[n] {
				d[k] = true
			}
			check("labels of "+n, idx.GetStoredDimensionsForMetric(n), d)
			for _, l := range names {
				check("values of "+n+"/"+l, idx.GetStoredValuesForMetricAndDimension(n, l), ref[n][l])
			}
		}
	}
	observe()
	for _, x := range ix {
		l := universe[x]
		idx.UpdateMetric(prom.ParsedSeries{Labels: l, Value: 1, Timestamp: 1})
		c.Trans(1)
		if n := l.Get("__name__"); n != "" {
			if ref[n] == nil {
				ref[n] = map[string]map[string]bool{}
			}
			for _, p := range l {
				if p.Name != "__name__" {
					if ref[n][p.Name] == nil {
						ref[n][p.Name] = map[string]bool{}
					}
					ref[n][p.Name][p.Value] = true
				}
			}
		}
		observe()
	}
	for _, s := range snaps {
		if setStr(s.s) != s.want {
			c.Failf("%s handed out earlier as [%s] later reads [%s]", s.what, s.want, setStr(s.s))
		}
	}
	c.Trace()
	c.State(fmt.Sprint(ref))
	c.Outcome(fmt.Sprint(ref))
}

func setStr(s sets.String) string {
	var l []string
	for k := range s {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}
func keysStr(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}
