package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif/vh"
)

var c02Universe = []labels.Labels{
	labels.FromStrings("__name__", "m"),
	labels.FromStrings("__name__", "m", "a", "1"),
	labels.FromStrings("__name__", "m", "a", "2"),
	labels.FromStrings("__name__", "m", "a", "1", "b", "1"),
	labels.FromStrings("__name__", "m", "b", "2"),
	labels.FromStrings("__name__", "n", "a", "1"),
	labels.FromStrings("__name__", "n"),
	// these two have the same labels.Hash()
	labels.FromStrings("__name__", "m", "v", collA),
	labels.FromStrings("__name__", "m", "v", collB),
	labels.FromStrings("__name__", "m", "a", "12", "b", "1"),
	labels.FromStrings("a", "1", "b", "2"),
}

func c02Matchers(full bool) []*labels.Matcher {
	var out []*labels.Matcher
	names := []struct {
		n  string
		vs []string
		rs []string
	}{
		{"__name__", []string{"m", "n", ""}, []string{".*", ".+", "m|n", "m.*", "x?"}},
		{"a", []string{"1", "2", "", "12"}, []string{".*", ".+", "1|2", "1|", "1.*", "x"}},
		{"b", []string{"1", "2", ""}, []string{".+", ".*", "2|", "[13]"}},
		{"v", []string{collA, collB, ""}, []string{"zzz1.*", ".+"}},
		{"zz", []string{"1", ""}, []string{".*", ".+"}},
	}
	for _, n := range names {
		for _, v := range n.vs {
			out = append(out, mustMatcher(labels.MatchEqual, n.n, v), mustMatcher(labels.MatchNotEqual, n.n, v))
		}
		for _, v := range n.rs {
			out = append(out, mustMatcher(labels.MatchRegexp, n.n, v), mustMatcher(labels.MatchNotRegexp, n.n, v))
		}
		if full {
			for _, v := range n.vs {
				out = append(out, mustMatcher(labels.MatchRegexp, n.n, v), mustMatcher(labels.MatchNotRegexp, n.n, v))
			}
		}
	}
	return out
}

func boundsC02(q bool) string {
	return fmt.Sprintf("every subset of size <=%d of %d label sets (incl. a hash-colliding pair), size<=3 in every load order, x every matcher list of length 1..2 over %d matchers (length 3 over a third of them), each with the label listings; 243 series with 5 labels x every list of up to 5 matchers on these, 7 kinds each, in 3 orders and doubled; each case = one load order, all matcher lists; a store of one label taking 17 values of every kind (plain, empty, blanks, regular expression characters, a newline), each of them alone and without each of them, x every matcher over these values and 46 patterns of every form, alone and (quick: every 11th) in pairs; stores of every size up to %d and around powers of two up to %d series", map[bool]int{true: 4, false: 6}[q], len(c02Universe), len(c02Matchers(!q)), map[bool]int{true: 40, false: 140}[q], map[bool]int{true: 1025, false: 5000}[q])
}

func runC02(h *vh.H) {
	if c02Universe[7].Hash() != c02Universe[8].Hash() {
		panic("collision pair does not collide")
	}
	ms := c02Matchers(!h.Quick())
	var small []*labels.Matcher
	for i := 0; i < len(ms); i += 3 {
		small = append(small, ms[i])
	}
	one := func(order []int) {
		o := append([]int{}, order...)
		h.Case(func() string {
			var s []string
			for _, i := range o {
				s = append(s, c02Universe[i].String())
			}
			return "load order " + strings.Join(s, " ")
		}, func(c *vh.C) { caseC02(c, o, ms, small) })
	}
	vh.Subsets(len(c02Universe), h.Pick(4, 6), func(s []int) {
		if len(s) <= 3 {
			vh.Perms(append([]int{}, s...), one)
		} else {
			one(s)
			r := []int{}
			for i := len(s) - 1; i >= 0; i-- {
				r = append(r, s[i])
			}
			one(r)
		}
	})
	all := make([]int, len(c02Universe))
	for i := range all {
		all[i] = i
	}
	one(all)
	largeC02(h)
	// long lists of matchers: each of 5 labels matched in one of 7 ways or not at all
	for first := 0; first < 8; first++ {
		for order := 0; order < 4; order++ {
			h.Case(func() string {
				return fmt.Sprintf("243 series with 5 labels, lists of up to 5 matchers, the first kind %d, order %d", first, order)
			}, func(c *vh.C) { caseC02Long(c, first, order) })
		}
	}
	// values and patterns of every kind: the whole store, all but one series, one series
	for i := -1; i < 2*len(c02Values); i++ {
		var in []string
		for j, v := range c02Values {
			if i == -1 || i < len(c02Values) && j != i || i-len(c02Values) == j {
				in = append(in, v)
			}
		}
		h.Case(func() string { return fmt.Sprintf("series m{a=...} of the values %q", in) }, func(c *vh.C) { caseC02Values(c, in, h.Quick()) })
	}
}

func caseC02Long(c *vh.C, first, order int) {
	names := []string{"__name__", "a", "b", "instance", "z"}
	st := prom.NewRangeStorage()
	ref := &refStore{}
	var b []prom.ParsedSeries
	vh.Product([]int{3, 3, 3, 3, 3}, func(v []int) {
		l := map[string]string{}
		for i, x := range v {
			if x > 0 {
				l[names[i]] = []string{"", "x", "y"}[x]
			}
		}
		if len(l) > 0 {
			b = append(b, prom.ParsedSeries{Labels: labels.FromMap(l), Timestamp: int64(len(b) % 5), Value: float64(len(b))})
		}
	})
	if order == 1 {
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	if err := st.LoadData(b); err != nil {
		c.Failf("load: %v", err)
	}
	ref.load(b)
	var sels [][]*labels.Matcher
	vh.Product([]int{8, 8, 8, 8}, func(v []int) {
		var ms []*labels.Matcher
		for i, k := range append([]int{first}, v...) {
			if k == 0 {
				continue
			}
			kind := []labels.MatchType{0, labels.MatchEqual, labels.MatchNotEqual, labels.MatchRegexp, labels.MatchNotRegexp, labels.MatchEqual, labels.MatchNotEqual, labels.MatchRegexp}[k]
			ms = append(ms, mustMatcher(kind, names[i], []string{"", "x", "x", "x|y", "y", "", "", "y|"}[k]))
		}
		if len(ms) == 0 {
			return
		}
		switch order {
		case 1:
			for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
				ms[i], ms[j] = ms[j], ms[i]
			}
		case 2:
			ms = append(ms[len(ms)/2:len(ms):len(ms)], ms[:len(ms)/2]...)
		case 3:
			ms = append(ms, ms...)
		}
		sels = append(sels, ms)
	})
	checkStore(c, st, ref, sels, append(names, "nope"))
}

var c02Values = []string{"", "1", "12", "2", "1.2", "1x2", "a|b", "a", "b", "A", " 1", "é", "(1)", "*", "1\n2", "^1$", "\\"}

var c02Patterns = []string{
	"", "|", ".", ".*", ".+", ".?", "1|2", "1|", "|1", "1||2", "12|1", "(1|2)", "1?2?", "1.*", ".*1", ".*1.*", "1.2", "1\\.2", "[^1]", "[12]+", "\\d+", "(?i)a", "a|b", "a\\|b",
	"^1$", "^1|2$", "\\^1\\$", "\\(1\\)", "()", "(.*)", "((1))", "\\*", "\\\\", "(?s)1.2", "(?s).*", "(?m)^2$", "é", " *1", "x*", "12", "A|1\\.2", "a.b", "[a-b]", "\\w", "1{1}", "1{2}",
}

// caseC02Values: every matcher over the values and patterns alone, and
// every two of them (on a, and on a and the name).
func caseC02Values(c *vh.C, in []string, quick bool) {
	st := prom.NewRangeStorage()
	ref := &refStore{}
	for i, v := range in {
		l := []string{"__name__", "m"}
		if v != "" {
			l = append(l, "a", v)
		}
		p := []prom.ParsedSeries{{Labels: labels.FromStrings(l...), Timestamp: int64(i), Value: float64(i)}}
		if err := st.LoadData(p); err != nil {
			c.Failf("load: %v", err)
		}
		ref.load(p)
	}
	var one []*labels.Matcher
	for _, n := range []string{"a", "zz"} {
		for _, t := range []labels.MatchType{labels.MatchEqual, labels.MatchNotEqual, labels.MatchRegexp, labels.MatchNotRegexp} {
			l := c02Patterns
			if t == labels.MatchEqual || t == labels.MatchNotEqual {
				l = append(append([]string{}, c02Values...), "", "nope")
			}
			for _, v := range l {
				one = append(one, mustMatcher(t, n, v))
			}
		}
	}
	var sels [][]*labels.Matcher
	for i, m := range one {
		sels = append(sels, []*labels.Matcher{m}, []*labels.Matcher{everything, m}, []*labels.Matcher{m, m})
		if len(in) > 1 {
			for j, k := range one {
				if !quick || (i*31+j)%11 == 0 {
					sels = append(sels, []*labels.Matcher{m, k})
				}
			}
		}
	}
	checkStore(c, st, ref, sels, []string{"__name__", "a", "zz"})
}

func caseC02(c *vh.C, order []int, ms, small []*labels.Matcher) {
	st := prom.NewRangeStorage()
	ref := &refStore{}
	for n, i := range order {
		for k := 0; k < 2; k++ { // twice: the second load must find the same series
			p := prom.ParsedSeries{Labels: c02Universe[i], Timestamp: int64(n*10 + k), Value: float64(i*100 + k)}
			if err := st.LoadData([]prom.ParsedSeries{p}); err != nil {
				c.Failf("load: %v", err)
			}
			ref.load([]prom.ParsedSeries{p})
			c.Trans(1)
		}
	}
	q, err := st.Querier(context.Background(), 0, 1000)
	if err != nil {
		c.Failf("querier: %v", err)
	}
	check := func(l ...*labels.Matcher) {
		c.Trans(1)
		c.Trace()
		got, err := dump(q, l...)
		if err != nil {
			c.Failf("select %v: %v", l, err)
		}
		want := ref.dump(l...)
		if !sameDump(got, want) {
			c.Failf("select %v:\n got %s\nwant %s", l, dumpStr(got), dumpStr(want))
		}
		c.StateHash(vh.Hash(dumpStr(want)))
		c.Outcome(fmt.Sprint(len(want)))
	}
	for i, a := range ms {
		check(a)
		for _, b := range ms[i:] {
			check(a, b)
			if len(order) >= 2 {
				check(b, a)
			}
		}
	}
	for i, a := range small {
		for j, b := range small[i:] {
			for _, d := range small[i+j:] {
				check(a, b, d)
			}
		}
	}
	// label listings
	lists := [][]*labels.Matcher{{}}
	for _, m := range small {
		lists = append(lists, []*labels.Matcher{m})
	}
	for i := range small {
		lists = append(lists, []*labels.Matcher{small[i], small[(i*7+3)%len(small)]})
	}
	for _, l := range lists {
		names := map[string]map[string]bool{}
		for _, s := range ref.series {
			if matchAll(s.lbls, l) {
				for _, x := range s.lbls {
					if names[x.Name] == nil {
						names[x.Name] = map[string]bool{}
					}
					names[x.Name][x.Value] = true
				}
			}
		}
		got, _, err := q.LabelNames(l...)
		if err != nil {
			c.Failf("label names %v: %v", l, err)
		}
		var want []string
		for n := range names {
			want = append(want, n)
		}
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Failf("label names matching %v: got %q want %q", l, got, want)
		}
		for _, n := range []string{"__name__", "a", "b", "v", "zz"} {
			got, _, err := q.LabelValues(n, l...)
			if err != nil {
				c.Failf("label values %v: %v", l, err)
			}
			sort.Strings(got)
			var want []string
			for v := range names[n] {
				want = append(want, v)
			}
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.Failf("label values of %s matching %v: got %q want %q", n, l, got, want)
			}
			c.Trans(1)
		}
	}
	if err := q.Close(); err != nil {
		c.Failf("close: %v", err)
	}
}
