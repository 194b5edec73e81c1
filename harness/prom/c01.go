package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif/vh"
)

type kv [2]string

type line struct {
	text string
	bad  bool
	lbls []kv // nil: contributes nothing
	v    float64
	ts   *int64
}

func i64(v int64) *int64 { return &v }

var c01Lines = []line{
	{text: `m 1`, lbls: []kv{{"__name__", "m"}}, v: 1},
	{text: `m{a="x"} 3 1234`, lbls: []kv{{"__name__", "m"}, {"a", "x"}}, v: 3, ts: i64(1234)},
	{text: ``},
	{text: `m 1 2 3`, bad: true},
	{text: `# HELP m some "text" {here} 1`},
	{text: `m{} 2.5`, lbls: []kv{{"__name__", "m"}}, v: 2.5},
	{text: `m{a="x",b="y"} -1.5e3 5`, lbls: []kv{{"__name__", "m"}, {"a", "x"}, {"b", "y"}}, v: -1500, ts: i64(5)},
	{text: `m{b="y",a="x"} NaN`, lbls: []kv{{"__name__", "m"}, {"a", "x"}, {"b", "y"}}, v: math.NaN()},
	{text: `m{a="q\"\\\n="} +Inf`, lbls: []kv{{"__name__", "m"}, {"a", "q\"\\\n="}}, v: math.Inf(1)},
	{text: `m{a="x",} -Inf 0`, lbls: []kv{{"__name__", "m"}, {"a", "x"}}, v: math.Inf(-1), ts: i64(0)},
	{text: "  m_2\t6\t7", lbls: []kv{{"__name__", "m_2"}}, v: 6, ts: i64(7)},
	{text: `a:b_c{le="+Inf"} 0`, lbls: []kv{{"__name__", "a:b_c"}, {"le", "+Inf"}}, v: 0},
	{text: `m{a="é世,}{# "} 8`, lbls: []kv{{"__name__", "m"}, {"a", "é世,}{# "}}, v: 8},
	{text: `m{instance="i0",z="1"} 9`, lbls: []kv{{"__name__", "m"}, {"instance", "i0"}, {"z", "1"}}, v: 9},
	{text: `m{a=""} 10`, lbls: []kv{{"__name__", "m"}, {"a", ""}}, v: 10},
	{text: `# TYPE m counter`},
	{text: `# a comment m 5`},
	{text: `n{a="x"} 1.7976931348623157e308 9223372036854775807`, lbls: []kv{{"__name__", "n"}, {"a", "x"}}, v: math.MaxFloat64, ts: i64(math.MaxInt64)},
	{text: `m`, bad: true},
	{text: `m{a="x" 1`, bad: true},
	{text: `m{a=x} 1`, bad: true},
	{text: `{a="b"} 1`, bad: true},
	{text: `m abc`, bad: true},
	{text: `1m 1`, bad: true},
	{text: `m 1 1.5`, bad: true},
	{text: `m{a="x} 1`, bad: true},
	{text: `m{a="x"}`, bad: true},
}

var c01Extra = []map[string]string{
	{},
	{"instance": "http://h:1/metrics"},
	{"a": "Z", "instance": "i"},
	{"zz": "1", "__name__": "over", "A": "q"},
	{"a": ""},
}

var c01Now = []time.Time{
	time.Unix(1600000000, 123456789).In(time.FixedZone("x", 7*3600)),
	time.Unix(0, 0),
	time.Unix(-2, 5000000),
	time.Unix(7258118400, 999999999).UTC(),
}

// the parts a sample line is put together from
var (
	c01Lead  = []string{"", " ", "\t \t"}
	c01Names = []string{"m", "a:b", "_x", "NaN"}
	c01Blank = []string{" ", "\t", "  \t "}
	c01Trail = []string{"", " ", "\t "}
	c01Sets  = []struct {
		text string
		l    []kv
	}{
		{"", nil},
		{"{}", nil},
		{`{a="x"}`, []kv{{"a", "x"}}},
		{` { a = "x" , } `, []kv{{"a", "x"}}},
		{`{b="y",a="x"}`, []kv{{"a", "x"}, {"b", "y"}}},
		{`{a=""}`, []kv{{"a", ""}}},
		{"{a=\" x\t\",b=\"\\\\t\"}", []kv{{"a", " x\t"}, {"b", "\\t"}}},
		{`{a="\"",instance="i"}`, []kv{{"a", "\""}, {"instance", "i"}}},
		{`{_="\n\\n",A="\\"}`, []kv{{"_", "\n\\n"}, {"A", "\\"}}},
		{`{a="} 1 # {"}`, []kv{{"a", "} 1 # {"}}},
		{`{le="0.1",quantile="NaN"}`, []kv{{"le", "0.1"}, {"quantile", "NaN"}}},
		{`{a="世 é",zz="2",zzz="3",B="4",b="5"}`, []kv{{"a", "世 é"}, {"zz", "2"}, {"zzz", "3"}, {"B", "4"}, {"b", "5"}}},
	}
	c01Values = []struct {
		text string
		v    float64
	}{
		{"0", 0}, {"-0", math.Copysign(0, -1)}, {"1", 1}, {"-1.5e-3", -0.0015}, {"NaN", math.NaN()}, {"+Inf", math.Inf(1)}, {"-Inf", math.Inf(-1)},
		{"inf", math.Inf(1)}, {"nan", math.NaN()}, {"1e308", 1e308}, {"5e-324", 5e-324}, {"0.1", 0.1}, {"18446744073709551617", 18446744073709551616}, {".5", .5}, {"+7", 7},
	}
	c01Stamps = []struct {
		text string
		t    *int64
	}{
		{"", nil}, {"0", i64(0)}, {"1", i64(1)}, {"1599999999999", i64(1599999999999)}, {"1600000000123", i64(1600000000123)}, {"007", i64(7)}, {"9223372036854775807", i64(math.MaxInt64)},
	}
)

// madeLine puts a sample line together.
func madeLine(lead, name, set, blank, value, stamp, trail int) line {
	l := line{text: c01Lead[lead] + c01Names[name] + c01Sets[set].text + c01Blank[blank] + c01Values[value].text, v: c01Values[value].v, ts: c01Stamps[stamp].t}
	if c01Stamps[stamp].text != "" {
		l.text += c01Blank[blank] + c01Stamps[stamp].text
	}
	l.text += c01Trail[trail]
	l.lbls = append([]kv{{"__name__", c01Names[name]}}, c01Sets[set].l...)
	return l
}

func boundsC01(q bool) string {
	return "every sample line put together from 3 ways to start, 4 names, 12 label sets, 3 kinds of blanks, 15 values, 7 timestamps and 3 ways to end, alone; every pair and triple of the lines of 1 name, 3 label sets, 4 values and 3 timestamps; every number of lines, series, labels, additional labels and characters up to 40 and around powers of two up to 1025; and " + fmt.Sprintf("every payload of up to %d lines over %d line shapes x %d additional-label maps x %d scrape instants (all maps/instants up to length 2, rotating ones for the longest length)", map[bool]int{true: 3, false: 4}[q], len(c01Lines), len(c01Extra), len(c01Now))
}

func runC01(h *vh.H) {
	largeC01(h)
	max := h.Pick(3, 4)
	cnt := 0
	vh.Seqs(len(c01Lines), 0, max, func(ix []int) {
		cnt++
		es, ns := []int{0, 1, 2, 3, 4}, []int{0, 1, 2, 3}
		if len(ix) > 2 {
			es, ns = []int{cnt % 5}, []int{(cnt / 5) % 4}
		}
		for _, e := range es {
			for _, n := range ns {
				e, n := e, n
				var ls []line
				for _, i := range ix {
					ls = append(ls, c01Lines[i])
				}
				oneC01(h, ls, e, n)
			}
		}
	})
	vh.Product([]int{len(c01Lead), len(c01Names), len(c01Sets), len(c01Blank), len(c01Values), len(c01Stamps), len(c01Trail)}, func(v []int) {
		cnt++
		oneC01(h, []line{madeLine(v[0], v[1], v[2], v[3], v[4], v[5], v[6])}, cnt%5, cnt/5%4)
	})
	// several samples of one series or of related ones
	var rel []line
	vh.Product([]int{3, 4, 3}, func(v []int) {
		rel = append(rel, madeLine(0, 0, []int{0, 2, 4}[v[0]], 0, []int{0, 2, 4, 5}[v[1]], []int{0, 2, 4}[v[2]], 0))
	})
	vh.Seqs(len(rel), 2, 3, func(ix []int) {
		cnt++
		var ls []line
		for _, i := range ix {
			ls = append(ls, rel[i])
		}
		oneC01(h, ls, cnt%5, cnt/5%4)
	})
}

// largeC01 makes payloads and lines of every size.
func largeC01(h *vh.H) {
	for _, n := range sizes(h.Pick(40, 140), h.Pick(1025, 5000)) {
		n := n
		num := func(k int) string { return fmt.Sprintf("%04d", k) }
		for _, k := range []struct {
			kind string
			mk   func() []line
		}{
			{"lines", func() (ls []line) {
				for i := 0; i < n; i++ {
					l := madeLine(0, i%2, i%len(c01Sets), i%3, i%len(c01Values), i%len(c01Stamps), 0)
					ls = append(ls, l)
				}
				return ls
			}},
			{"series", func() (ls []line) {
				for i := 0; i < n; i++ {
					ls = append(ls, line{text: fmt.Sprintf("m%d{a=%q} %d", i, num(n-i), i), lbls: []kv{{"__name__", fmt.Sprintf("m%d", i)}, {"a", num(n - i)}}, v: float64(i)})
				}
				return ls
			}},
			{"labels", func() []line {
				l := line{text: "m{", v: 2, lbls: []kv{{"__name__", "m"}}}
				for i := n; i > 0; i-- {
					l.text += fmt.Sprintf("l%s=%q,", num(i), num(i*7))
					l.lbls = append(l.lbls, kv{"l" + num(i), num(i * 7)})
				}
				l.text += "} 2"
				return []line{l, l}
			}},
			{"long", func() []line {
				name, lbl, val := "m"+strings.Repeat("n", n), "l"+strings.Repeat("b", n), strings.Repeat("v", n)
				if n%2 == 1 {
					val = strings.Repeat(`é\\`, n)
				}
				return []line{
					{text: "# HELP m " + strings.Repeat("x", n)}, {text: strings.Repeat(" ", n)},
					{text: name + "{" + lbl + "=\"" + val + "\"} 1.5", lbls: []kv{{"__name__", name}, {lbl, strings.ReplaceAll(val, `\\`, `\`)}}, v: 1.5},
					{text: "m " + strings.Repeat("0", n) + "7", lbls: []kv{{"__name__", "m"}}, v: 7},
				}
			}},
			{"other lines", func() (ls []line) {
				for i := 0; i < n; i++ {
					ls = append(ls, []line{{}, {text: "# TYPE m counter"}, {text: "# x"}}[i%3])
				}
				return append(ls, c01Lines[1])
			}},
			{"bad at last", func() (ls []line) {
				for i := 0; i < n; i++ {
					ls = append(ls, c01Lines[1])
				}
				return append(ls, line{text: "m{", bad: true})
			}},
			{"bad at first", func() (ls []line) {
				ls = append(ls, line{text: "m{a=\"x} 1", bad: true})
				for i := 0; i < n; i++ {
					ls = append(ls, c01Lines[0])
				}
				return ls
			}},
		} {
			for e := range c01Extra {
				h.Case(func() string { return fmt.Sprintf("%d %s, extra=%v", n, k.kind, c01Extra[e]) }, func(c *vh.C) { caseC01(c, k.mk(), c01Extra[e], c01Now[0]) })
			}
		}
		extra := map[string]string{}
		for i := 0; i < n; i++ {
			extra["l"+num(i)] = strings.Repeat("v", i)
		}
		h.Case(func() string { return fmt.Sprintf("%d additional labels", n) }, func(c *vh.C) { caseC01(c, c01Lines[:3], extra, c01Now[0]) })
	}
}

func oneC01(h *vh.H, ls []line, e, n int) {
	h.Case(func() string {
		var ts []string
		for _, l := range ls {
			ts = append(ts, l.text)
		}
		return fmt.Sprintf("payload=%q extra=%v now=%d", strings.Join(ts, "\n")+"\n", c01Extra[e], c01Now[n].UnixNano())
	}, func(c *vh.C) { caseC01(c, ls, c01Extra[e], c01Now[n]) })
}

func caseC01(c *vh.C, ls []line, extra map[string]string, now time.Time) {
	var sb strings.Builder
	bad := false
	type want struct {
		key string
		v   float64
		ts  int64
	}
	var wants []want
	for _, l := range ls {
		sb.WriteString(l.text)
		sb.WriteByte('\n')
		if l.bad {
			bad = true
		}
		if l.lbls == nil {
			continue
		}
		m := map[string]string{}
		for _, p := range l.lbls {
			m[p[0]] = p[1]
		}
		for k, v := range extra {
			m[k] = v
		}
		ts := now.UnixNano() / 1e6
		if l.ts != nil {
			ts = *l.ts
		}
		wants = append(wants, want{mapKey(m), l.v, ts})
	}
	ecopy := map[string]string{}
	for k, v := range extra {
		ecopy[k] = v
	}
	var got []prom.ParsedSeries
	var err error
	if len(extra) == 0 {
		got, err = prom.ParseTextData([]byte(sb.String()), now)
	} else {
		got, err = prom.ParseTextDataWithAdditionalLabels([]byte(sb.String()), now, extra)
	}
	c.Trans(len(ls) + 1)
	c.Trace()
	if bad {
		if err == nil {
			c.Failf("malformed payload accepted: %v", got)
		}
		if len(got) != 0 {
			c.Failf("malformed payload yields entries: %v", got)
		}
		c.Outcome("error")
		return
	}
	if err != nil {
		c.Failf("well-formed payload rejected: %v", err)
	}
	if len(got) != len(wants) {
		c.Failf("got %d entries, want %d: %v", len(got), len(wants), got)
	}
	var st []string
	for i, g := range got {
		w := wants[i]
		m := map[string]string{}
		prev := ""
		for j, l := range g.Labels {
			if j > 0 && l.Name <= prev {
				c.Failf("labels of entry %d not sorted/unique: %v", i, g.Labels)
			}
			prev = l.Name
			m[l.Name] = l.Value
		}
		if mapKey(m) != w.key {
			c.Failf("entry %d labels %v, want %s", i, g.Labels, w.key)
		}
		if math.Float64bits(g.Value) != math.Float64bits(w.v) && !(math.IsNaN(g.Value) && math.IsNaN(w.v)) {
			c.Failf("entry %d value %v, want %v", i, g.Value, w.v)
		}
		if g.Timestamp != w.ts {
			c.Failf("entry %d timestamp %d, want %d", i, g.Timestamp, w.ts)
		}
		st = append(st, w.key, fmt.Sprint(w.v, w.ts))
	}
	if len(ecopy) != len(extra) {
		c.Failf("additional labels map modified")
	}
	c.State(st...)
	c.Outcome(fmt.Sprint(len(got)))
}

// mapKey renders a label map canonically, treating empty values as absent.
func mapKey(m map[string]string) string {
	var ks []string
	for k, v := range m {
		if v != "" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%q,", k, m[k])
	}
	return sb.String()
}
