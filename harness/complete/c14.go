package main

import (
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"verif/vh"
)

// PromQL's words, by kind.
var vocabulary = map[earley.TokenType][]string{
	earley.AGGR_OP:            {"sum", "max", "min", "avg", "stddev", "stdvar", "count", "count_values", "bottomk", "topk", "quantile"},
	earley.AGGR_KW:            {"by", "without"},
	earley.OFFSET_KW:          {"offset"},
	earley.BOOL_KW:            {"bool"},
	earley.GROUP_KW:           {"on", "ignoring"},
	earley.GROUP_SIDE:         {"group_left", "group_right"},
	earley.ARITHMETIC:         {"+", "-", "*", "/", "%", "^"},
	earley.UNARY_OP:           {"+", "-"},
	earley.COMPARISION:        {"==", "!=", ">", "<", ">=", "<="},
	earley.SET:                {"and", "or", "unless"},
	earley.LABELMATCH:         {"=", "!=", "=~", "!~"},
	earley.FUNCTION_SCALAR_ID: {"time", "scalar"},
	earley.FUNCTION_VECTOR_ID: strings.Fields("abs absent absent_over_time avg_over_time ceil changes clamp_max clamp_min count_over_time days_in_month day_of_month day_of_week delta deriv exp floor histogram_quantile holt_winters hour idelta increase irate label_replace label_join ln log10 log2 max_over_time min_over_time minute month predict_linear quantile_over_time rate resets round sort sort_desc sqrt stddev_over_time stdvar_over_time sum_over_time timestamp vector year"),
}

var c14Index = index{
	"ma":    {"la": {"x", "X1", "a-b/c", "é\"q", "日本-x"}, "La": {"2"}, "lb": {"1"}, "hour": {"7"}, "group": {"g1"}},
	"mb":    {"la": {"w"}, "lc": {"x.y", ""}},
	"mab":   {},
	"mmx":   {"le": {"0.5"}},
	"m:r":   {"lz": {"5"}},
	"sum_x": {"on": {"z"}},
	"Mb":    {"le": {"+Inf"}, "instance": {"http://h:80/metrics"}},
}

// choices of text for each terminal; the first is used in long prefixes
var termText = map[string][]string{
	"metric": {"ma", "mb"}, "label": {"la", "hour"}, "num": {"1"}, "str": {`"x"`}, "dur": {"5m"},
	"sfunc": {"scalar"}, "vfunc": {"rate"}, "agg": {"sum"}, "aggkw": {"by"}, "offset": {"offset"}, "bool": {"bool"},
	"groupkw": {"on"}, "side": {"group_left"}, "set": {"and"}, "arith": {"+"}, "unary": {"-"}, "cmp": {">"}, "lmatch": {"="},
}

var c14Partials = []string{"", "s", "m", "ma", "mm", "m:", "by", "o", "zz", "l", "la", "g", "S", "M", "L", `"`, `"x`, `"X`, `"a-b`, `"é`, `"日`, "5", "30"}

func boundsC14(q bool) string {
	return fmt.Sprintf("every viable query prefix of <=%d tokens from the start and <=%d after each of %d longer ones (two metrics and two labels at each place, with and without optional blanks), followed by each of %d partial words, against an index of 6 metrics; values with each character or two of them, typed up to each character; indexes of 10 to 1000 (thorough: 5000) metrics, labels and values; 14 constructs repeated up to 14 (30) times; every word of the vocabulary as a token of its kind", map[bool]int{true: 5, false: 6}[q], map[bool]int{true: 2, false: 3}[q], len(c14Prefixes()), len(c14Partials))
}

func c14Prefixes() []string {
	return append(slices.Clone(longPrefixes),
		"metric:m:r { label:lz lmatch", "metric:zz { label lmatch", "metric { label:lq lmatch", "metric:m:r {", "metric:mb { label:lc lmatch",
		"metric { label lmatch str , label:lb lmatch", "metric { label lmatch str } arith metric:mb { label lmatch", "metric { label lmatch str } arith", "metric { label lmatch str } cmp", "metric { label lmatch str } arith ( metric arith",
		"agg ( metric arith metric:mb ) aggkw (", "metric:mb arith agg ( metric ) aggkw (", "agg ( metric ) arith agg ( metric:mb ) aggkw (",
		"agg ( agg ( metric ) aggkw ( label ) ) aggkw (", "agg ( vfunc ( metric [ dur ] ) ) aggkw (", "vfunc ( metric , metric:mb arith groupkw (",
		"metric set groupkw (", "( metric:mb arith num ) arith groupkw (", "agg ( metric:m:r ) aggkw ( label:lz ,", "metric { label:group lmatch", "agg ( metric ) aggkw ( label:group ,",
		"agg ( metric ) aggkw ( label:hour ,", "agg ( metric:sum_x ) aggkw ( label:on ,", "metric cmp groupkw ( label:group ) side (", "metric cmp bool groupkw ( )",
		"agg ( metric ) aggkw ( )", "vfunc ( agg ( metric:mb ) , agg ( metric ) aggkw (", "agg aggkw (", "metric:mb [ dur ] offset", "metric [ dur :",
		"metric:Mb {", "metric:Mb { label:instance lmatch", "agg ( metric:Mb ) aggkw (", "metric { label:La lmatch", `metric { label lmatch str:"日本" ,`, `metric { label:lb lmatch str:"日本" } arith`, `metric { label lmatch str:"日本" , label lmatch`)
}

// qtok is one token of a query under construction.
type qtok struct {
	text string
	term string // the role it plays
}

type query struct {
	toks []qtok
	cfg  config
}

// lexType is the token kind the lexer gives the text here.
func (q query) lexType(term string, text string) earley.TokenType {
	o := q.open()
	inBraces := o >= 0 && q.toks[o].text == "{"
	switch {
	case text == "hour":
		return earley.FUNCTION_VECTOR_ID
	case term == "label" && !inBraces && text == "group":
		return earley.AGGR_OP
	case term == "label" && !inBraces && text == "on":
		return earley.GROUP_KW
	case term == "metric" && strings.Contains(text, ":"):
		return earley.METRIC_ID
	case term == "metric" || term == "label":
		return earley.ID
	}
	return tokOf(term)
}

func (q query) add(term, text string) query {
	return query{append(q.toks[:len(q.toks):len(q.toks)], qtok{text, term}), q.cfg.step(tokTerms[q.lexType(term, text)]...)}
}

func wordEnd(s string) bool {
	switch c := s[len(s)-1]; {
	case c == '"', c == '_', c == '.', c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= 0x80:
		return true
	}
	return false
}

// render gives the query's text, ready for a partial word to follow.
func (q query) render(tight bool) string {
	var b strings.Builder
	for i, t := range q.toks {
		b.WriteString(t.text)
		last := i == len(q.toks)-1
		need := (wordEnd(t.text) || t.term == "metric") && (last || wordEnd(q.toks[i+1].text[:1]) || strings.Contains("\"'`.:", q.toks[i+1].text[:1]))
		if need || !tight {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

func (q query) metrics(from, to int) []string {
	var m []string
	for _, t := range q.toks[from:to] {
		if t.term == "metric" && !slices.Contains(m, t.text) {
			m = append(m, t.text)
		}
	}
	return m
}

// open finds the unmatched opening parenthesis or brace.
func (q query) open() int {
	d := 0
	for i := len(q.toks) - 1; i >= 0; i-- {
		switch q.toks[i].text {
		case ")", "}":
			d++
		case "(", "{":
			if d == 0 {
				return i
			}
			d--
		}
	}
	return -1
}

// labelScope returns the metric whose labels may be named next; known=false if
// more than one would do.
func (q query) labelScope() (metric string, known bool) {
	o := q.open()
	if q.toks[o].text == "{" {
		return q.toks[o-1].text, true
	}
	before := q.metrics(0, o)
	if len(before) == 0 {
		return "", true
	}
	k := o - 1 // the keyword
	if q.toks[k].term == "side" {
		// skip the label list and go to the group keyword
		for k--; q.toks[k].text != "("; k-- {
		}
		k--
	}
	var m []string
	if q.toks[k].term == "aggkw" {
		if q.toks[k-1].term == "agg" {
			return "", false
		}
		d, j := 0, k-1
		for ; ; j-- {
			if q.toks[j].text == ")" {
				d++
			} else if q.toks[j].text == "(" {
				if d--; d == 0 {
					break
				}
			}
		}
		m = q.metrics(j, k)
	} else {
		d, j := 0, k-1
		for ; j >= 0; j-- {
			if t := q.toks[j].text; t == ")" || t == "}" {
				d++
			} else if t == "(" || t == "{" {
				if d == 0 {
					break
				}
				d--
			} else if t == "," && d == 0 {
				break
			}
		}
		m = q.metrics(j+1, k)
	}
	if len(m) == 1 {
		return m[0], true
	}
	return "", false
}

type offer struct{ value, kind string }

// expect lists what must be offered for the partial word; weak lists label sets
// of which exactly one (or none) must be offered in addition.
func (q query) expect(partial string) (must []offer, weak [][]offer) {
	has := func(s string) bool { return strings.HasPrefix(s, partial) }
	labelsOf := func(m string) (l []offer) {
		for d := range c14Index[m] {
			if has(d) {
				l = append(l, offer{d, "metric-label"})
			}
		}
		return
	}
	for t := range q.cfg.terms() {
		k := termKind[t]
		switch t {
		case "metric":
			for m := range c14Index {
				if has(m) {
					must = append(must, offer{m, "metric-id"})
				}
			}
		case "label":
			m, known := q.labelScope()
			if known {
				must = append(must, labelsOf(m)...)
			} else {
				weak = append(weak, nil)
				for _, m := range q.metrics(0, len(q.toks)) {
					weak = append(weak, labelsOf(m))
				}
			}
		case "str":
			o := q.open()
			label := q.toks[len(q.toks)-2].text
			for _, v := range c14Index[q.toks[o-1].text][label] {
				if has(strconv.Quote(v)) {
					must = append(must, offer{strconv.Quote(v), ""})
				}
			}
		case "dur":
			if _, err := strconv.Atoi(partial); err == nil {
				for _, u := range []string{"s", "m", "h", "d", "w", "y"} {
					must = append(must, offer{u, "time-unit"})
				}
			}
		default:
			for _, w := range vocabulary[k] {
				if has(w) {
					must = append(must, offer{w, string(k)})
				}
			}
		}
	}
	return
}

func sortOffers(l []offer) string {
	s := make([]string, len(l))
	for i, o := range l {
		s[i] = o.value + "|" + o.kind
	}
	sort.Strings(s)
	return strings.Join(s, "  ")
}

func (q query) check(c *vh.C, pc autocomplete.PromQLCompleter, partial string, tight bool) {
	text := q.render(tight) + partial
	ms := pc.GenerateSuggestions(text, len(text))
	c.Trans(1)
	must, weak := q.expect(partial)
	str := q.cfg.terms()["str"]
	var got []offer
	for _, m := range ms {
		k := m.GetKind()
		if str {
			k = ""
		}
		got = append(got, offer{m.GetValue(), k})
		switch k {
		case "metric-id":
			if want := strings.Join(c14Index.GetStoredDimensionsForMetric(m.GetValue()).List(), ","); m.GetDetail() != want {
				c.Failf("%q: metric %s is described as %q, its labels are %q", text, m.GetValue(), m.GetDetail(), want)
			}
		case "metric-label":
			if metric, known := q.labelScope(); known {
				if want := strings.Join(autocomplete.Enquote(c14Index.GetStoredValuesForMetricAndDimension(metric, m.GetValue())).List(), ","); m.GetDetail() != want {
					c.Failf("%q: label %s of %s is described as %q, its values are %q", text, m.GetValue(), metric, m.GetDetail(), want)
				}
			}
		default:
			if !str && m.GetDetail() == "" {
				c.Failf("%q: %s has no description", text, m.GetValue())
			}
		}
	}
	g := sortOffers(got)
	ok := g == sortOffers(must)
	if !ok {
		for _, w := range weak {
			if g == sortOffers(append(slices.Clone(must), w...)) {
				ok = true
				c.Note("label lists with more than one candidate metric", 1)
				break
			}
		}
	}
	if !ok {
		c.Failf("%q: offered\n  %s\nwant\n  %s%s", text, g, sortOffers(must), map[bool]string{true: " (or with one metric's labels)"}[len(weak) > 0])
	}
	c.Outcome(g)
	c.State(text)
}

func (q query) checkAll(c *vh.C, pc autocomplete.PromQLCompleter) {
	partials := c14Partials
	if q.cfg.terms()["dur"] {
		partials = append(slices.Clone(partials), "08", "0x1", "1.5", "1e3", "5m")
	}
	for _, tight := range []bool{false, true} {
		if tight && q.render(true) == q.render(false) {
			continue
		}
		for _, p := range partials {
			q.check(c, pc, p, tight)
		}
	}
}

func startQuery() query { return query{nil, startConfig()} }

func (q query) exts() []query {
	var terms []string
	for t := range q.cfg.terms() {
		if t != "eof" {
			terms = append(terms, t)
		}
	}
	sort.Strings(terms)
	var out []query
	for _, t := range terms {
		texts := termText[t]
		if texts == nil {
			texts = []string{t}
		}
		for _, x := range texts {
			out = append(out, q.add(t, x))
		}
	}
	return out
}

// queryOf makes a query of terminals, some with their text (metric:mb).
func queryOf(p string) query {
	q := startQuery()
	for _, f := range strings.Fields(p) {
		term, text, chosen := f, "", false
		if len(f) > 1 {
			term, text, chosen = strings.Cut(f, ":")
		}
		if !chosen {
			text = f
			if x := termText[f]; x != nil {
				text = x[0]
			}
		}
		q = q.add(term, text)
		if len(q.cfg) == 0 {
			panic("harness: dead prefix " + p)
		}
	}
	return q
}

// large: indexes with many entries, and long queries.
func large(h *vh.H) {
	ns := []int{10, 49, 50, 51, 99, 100, 101, 128, 129, 256, 257, 1000}
	if !h.Quick() {
		ns = append(ns, 1024, 1025, 5000)
	}
	for _, n := range ns {
		h.Case(func() string { return fmt.Sprintf("index with %d metrics, labels and values", n) }, func(c *vh.C) {
			old := c14Index
			defer func() { c14Index = old }()
			x := index{"ma": {}, "mb": {"la": {"only"}}}
			for i := 0; i < n; i++ {
				x[fmt.Sprintf("metric_%d_total", i)] = map[string][]string{"la": {fmt.Sprint(i)}}
				x["ma"][fmt.Sprintf("l%d", i)] = []string{fmt.Sprint(i)}
				x["ma"]["la"] = append(x["ma"]["la"], fmt.Sprintf("%d/v", i), fmt.Sprintf("v-%d", i))
			}
			c14Index = x
			pc := earley.NewPromQLCompleter(x)
			for _, p := range []string{"", "agg (", "metric:mb arith", "metric {", "metric { label lmatch str ,", "metric { label lmatch", "agg ( metric ) aggkw (", "metric:mb { label lmatch", fmt.Sprintf("metric:metric_%d_total { label lmatch", n-1), "metric arith metric:mb {"} {
				q := queryOf(p)
				for _, w := range []string{"", "m", "metric_", "metric_1", fmt.Sprintf("metric_%d", n-1), fmt.Sprintf("metric_%d_total", n-1), "l", "l1", fmt.Sprintf("l%d", n-1), `"`, `"1`, `"v-`, fmt.Sprintf(`"v-%d`, n-1), "s"} {
					q.check(c, pc, w, false)
				}
			}
			c.Trace()
		})
	}
	pc := earley.NewPromQLCompleter(c14Index)
	for _, s := range []struct{ first, again, then string }{
		{"metric {", "label lmatch str ,", ""}, {"metric {", "label lmatch str ,", "label:lb lmatch"}, {"metric:mb {", "label:lc lmatch str ,", "label lmatch"},
		{"", "metric:mb arith", "metric {"}, {"", "metric arith", "metric:mb { label:lc lmatch"}, {"", "agg (", "metric {"}, {"", "agg (", ""}, {"", "( metric:mb arith", "metric ) arith"},
		{"agg ( metric ) aggkw (", "label ,", ""}, {"agg ( metric ) aggkw ( label", ", label:lb", ","}, {"", "agg ( metric:mb ) arith", "agg ( metric ) aggkw ("},
		{"", "vfunc ( metric { label lmatch str } ) cmp bool", "metric:mb {"}, {"", "num arith", "metric"}, {"", "metric { label lmatch str } set", "metric:mb { label lmatch"},
	} {
		for n := 2; n <= h.Pick(14, 30); n++ {
			p := s.first + strings.Repeat(" "+s.again, n) + " " + s.then
			q := queryOf(p)
			h.Case(func() string { return fmt.Sprintf("%d times: %q", n, q.render(false)) }, func(c *vh.C) { q.checkAll(c, pc); c.Trace() })
		}
	}
}

// values: every character that can be part of a partially typed value.
func values(h *vh.H) {
	var chars []string
	for r := rune('!'); r < 0x7f; r++ {
		// (the partial word starts anew after these, also inside of quotes)
		if !strings.ContainsRune(" []{}()=!~,", r) {
			chars = append(chars, string(r))
		}
	}
	chars = append(chars, "é", "日", "\u0301", "😀", "\u00a0")
	withIndex := func(vs []string, what string, prefixes []string, f func(c *vh.C, q query, pc autocomplete.PromQLCompleter)) {
		h.Case(func() string { return what }, func(c *vh.C) {
			old := c14Index
			defer func() { c14Index = old }()
			slices.Sort(vs)
			vs = slices.Compact(vs)
			c14Index = index{"ma": {"la": vs, "lb": {"zz"}}, "mb": {"la": {"other"}}}
			pc := earley.NewPromQLCompleter(c14Index)
			for _, p := range prefixes {
				f(c, queryOf(p), pc)
			}
			c.Trace()
		})
	}
	at := []string{"metric { label lmatch", "metric:mb { label lmatch str } arith metric { label:lb lmatch str , label lmatch"}
	// the parts of the quoted value v that can have been typed (not ending within an escape)
	typed := func(v string) []string {
		ws := []string{""}
		for i := range v {
			ws = append(ws, strings.TrimSuffix(strconv.Quote(v[:i]), `"`))
		}
		return append(ws, strings.TrimSuffix(strconv.Quote(v), `"`))
	}
	for _, a := range chars {
		withIndex([]string{a, a + "b", "b" + a, "b" + a + "c", a + a, "b", "bc"}, fmt.Sprintf("values with %q", a), at, func(c *vh.C, q query, pc autocomplete.PromQLCompleter) {
			for _, v := range c14Index["ma"]["la"] {
				for _, w := range typed(v) {
					q.check(c, pc, w, false)
					q.check(c, pc, w, true)
				}
			}
		})
		for _, b := range chars {
			withIndex([]string{"v" + a + "w" + b + "x", "v" + b + a, "v" + a + "w"}, fmt.Sprintf("values with %q and %q", a, b), at[:1], func(c *vh.C, q query, pc autocomplete.PromQLCompleter) {
				for _, v := range c14Index["ma"]["la"] {
					for _, w := range typed(v) {
						q.check(c, pc, w, true)
					}
				}
			})
		}
	}
}

// other ways of writing a token
var termVariants = map[string][]string{
	"num":    {"0", "15", "1.5", ".5", "5.", "1e3", "1.e-3", "2E+10", "0x1F", "Inf", "NaN", "inf"},
	"str":    {`""`, `"a{b"`, `"x,y"`, `"sum("`, `")"`, `"}"`, `"]["`, `"a b"`, `" "`, `"="`, `"é日"`, `"\""`, `"\\"`, `"a\\\"b"`, `"'"`, "\"`\"", `"#"`, `'x'`, `''`, `'a"b'`, `'\''`, `'x}'`, `'a b, c'`, "`x`", "``", "`a\"b`", "`\\`", "`x y{`", `"by"`, `"5m"`, `"1"`, `"a\nb"`, `"\u00e9"`},
	"dur":    {"1s", "30s", "100ms", "1h30m", "1y", "2w", "7d", "90m", "1d12h"},
	"metric": {"zz", "_", "_x", "a1", "node_cpu_seconds_total", ":", "a:b:c", ":x", "m:", "sums", "by_x", "rate5m", "x_sum", "infx", "Nan_x", "M"},
	"agg":    {"SUM", "Sum", "TOPK"}, "aggkw": {"BY", "Without"}, "offset": {"OFFSET"}, "bool": {"BOOL"}, "groupkw": {"ON", "Ignoring"}, "side": {"GROUP_LEFT"}, "set": {"AND", "Or", "UNLESS"},
	"label": {"zz", "_", "__name__", "a1", "Sum"},
	"arith": {"-", "*", "/", "%", "^"}, "cmp": {"<", "==", "!=", ">=", "<="}, "lmatch": {"!=", "=~", "!~"},
}

// variants: what a token is written like makes no difference to what may follow.
func variants(h *vh.H, pc autocomplete.PromQLCompleter) {
	for _, p := range c14Prefixes() {
		fields := strings.Fields(p)
		if strings.Contains(p, `"`) {
			continue
		}
		for i, f := range fields {
			term, _, _ := strings.Cut(f, ":")
			if f == ":" {
				continue
			}
			for _, v := range termVariants[term] {
				if term == "label" && i > 0 && v != "zz" && fields[i-1] != "{" && fields[i-1] != "," {
					// (keywords aren't labels everywhere)
					if v == "Sum" {
						continue
					}
				}
				h.Case(func() string { return fmt.Sprintf("%q with %s for token %d", p, v, i) }, func(c *vh.C) {
					q := startQuery()
					for j, g := range fields {
						t, text, chosen := g, "", false
						if len(g) > 1 {
							t, text, chosen = strings.Cut(g, ":")
						}
						if !chosen {
							text = g
							if x := termText[g]; x != nil {
								text = x[0]
							}
						}
						if j == i {
							text = v
						}
						q = q.add(t, text)
					}
					for _, tight := range []bool{false, true} {
						for _, w := range []string{"", "s", "m", "l", `"`, "5"} {
							q.check(c, pc, w, tight)
						}
					}
					c.Trace()
				})
			}
		}
	}
}

func runC14(h *vh.H) {
	pc := earley.NewPromQLCompleter(c14Index)
	var explore func(c *vh.C, q query, depth int)
	explore = func(c *vh.C, q query, depth int) {
		q.checkAll(c, pc)
		if depth > 0 {
			for _, n := range q.exts() {
				explore(c, n, depth-1)
			}
		}
	}
	large(h)
	values(h)
	variants(h, pc)
	for _, p := range c14Prefixes() {
		q := queryOf(p)
		depth := h.Pick(2, 3)
		if depth == 0 || len(q.toks) == 0 {
			continue
		}
		h.Case(func() string { return fmt.Sprintf("exactly %q", q.render(false)) }, func(c *vh.C) { q.checkAll(c, pc); c.Trace() })
		for _, n := range q.exts() {
			h.Case(func() string { return fmt.Sprintf("from %q", n.render(false)) }, func(c *vh.C) { explore(c, n, depth-1); c.Trace() })
		}
	}
	var walk func(q query, depth int)
	walk = func(q query, depth int) {
		if h.Stop() {
			return
		}
		h.Case(func() string { return fmt.Sprintf("exactly %q", q.render(false)) }, func(c *vh.C) { q.checkAll(c, pc); c.Trace() })
		if depth > 0 {
			for _, n := range q.exts() {
				walk(n, depth-1)
			}
		}
	}
	walk(startQuery(), h.Pick(5, 6))
	// every word of the vocabulary stands for its kind
	for k, ws := range vocabulary {
		_ = k
		sort.Strings(ws)
	}
	before := map[earley.TokenType]string{
		earley.AGGR_OP: "", earley.FUNCTION_SCALAR_ID: "", earley.FUNCTION_VECTOR_ID: "", earley.UNARY_OP: "",
		earley.AGGR_KW: "agg ( metric )", earley.OFFSET_KW: "metric", earley.BOOL_KW: "metric cmp", earley.GROUP_KW: "metric arith",
		earley.GROUP_SIDE: "metric arith groupkw ( label )", earley.ARITHMETIC: "metric", earley.COMPARISION: "metric", earley.SET: "metric", earley.LABELMATCH: "metric { label",
	}
	var terms []string
	for t := range termKind {
		terms = append(terms, t)
	}
	sort.Strings(terms)
	for _, t := range terms {
		p, ok := before[termKind[t]]
		if !ok {
			continue
		}
		q := startQuery()
		for _, f := range strings.Fields(p) {
			text := f
			if x := termText[f]; x != nil {
				text = x[0]
			}
			q = q.add(f, text)
		}
		for _, w := range vocabulary[termKind[t]] {
			n := q.add(t, w)
			h.Case(func() string { return fmt.Sprintf("word %q", n.render(false)) }, func(c *vh.C) {
				// the word itself is offered where it may stand
				for i := 0; i <= len(w); i++ {
					if !wordEnd(w) && i > 0 {
						break
					}
					q.check(c, pc, w[:i], false)
				}
				n.checkAll(c, pc)
				c.Trace()
			})
		}
	}
}
