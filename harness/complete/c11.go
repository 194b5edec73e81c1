package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"strings"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"verif/vh"
)

var c11Indexes = []index{
	{"ma": {"la": {"x", "a-b"}, "lb": {"1"}}, "mb": {"lc": {"z"}}},
	{"mb": {"la": {"w"}}, "n": {"lb": {"2"}}},
}

type request struct {
	Index int
	Query string
	Pos   int
}

func (r request) String() string { return fmt.Sprintf("%d:%q@%d", r.Index, r.Query, r.Pos) }

// ask makes one request in this process.
func ask(r request) string {
	return matchString(earley.NewPromQLCompleter(c11Indexes[r.Index]).GenerateSuggestions(r.Query, r.Pos))
}

// freshMain answers one request in a process that has answered none before.
func freshMain() {
	var r request
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_FRESH")), &r); err != nil {
		panic(err)
	}
	fmt.Print("OK\n" + ask(r))
}

// brief shortens an answer for display.
func brief(s string) string {
	var vals []string
	for _, l := range strings.Split(s, "\n") {
		v, _, _ := strings.Cut(l, "\x00")
		vals = append(vals, v)
	}
	if len(vals) > 12 {
		vals = append(vals[:12:12], fmt.Sprintf("... (%d in all)", len(vals)))
	}
	return fmt.Sprintf("%q (#%x)", vals, vh.Hash(s))
}

var freshCache = map[request]string{}

// fresh is the answer of a fresh process.
func fresh(r request) string {
	if a, ok := freshCache[r]; ok {
		return a
	}
	b, _ := json.Marshal(r)
	if string(b) == "" {
		panic("no request")
	}
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VERIF_FRESH="+string(b))
	out, err := cmd.Output()
	a := strings.TrimPrefix(string(out), "OK\n")
	if err != nil || a == string(out) {
		a = fmt.Sprintf("fresh process failed: %v", err)
	}
	freshCache[r] = a
	return a
}

// deep alphabet: edits of each other in every direction
var c11Deep = []string{
	"", "m", "ma", "ma{", "ma{la", "ma{la=", `ma{la="`, `ma{la="x"`, `ma{la="x"}`, `ma{la="x",`,
	"mb{", "mb{la=", "sum(ma", "sum(ma)", "sum(ma) by (", "sum by (", "sum(mb) by (",
	"ma[5m", "ma [5", "rate(ma[5m:1", `"`, `ma{la="x`, "ma +", "ma + on(",
}

// wide alphabet for shorter histories
var c11Wide = append(slices.Clone(c11Deep),
	"mb", " ma", "ma ", "  ma{", "ma  {", "ma{ la =", "sum", "su", "avg(ma) by (", "ma + mb{", "mb + ma{", "ma+mb{la=", "1", "1 ", "1 +", "1 < ", "1 < bool ",
	"time(", "time()", "rate(ma", "rate(ma, ", "-", "-ma", "- ma ", "(ma", "(ma ", "(ma + ", "((", ")", "ma)", "{", "}", "ma}", "]", "ma]", "ma[5m] ", "ma[5m:", "ma[5m:1] ", "ma offset ",
	"ma # c", "# ma", "#", "'", "ma{la='x", "ma ' ", "é", "é ", "ma é ", "\xff ", "ma = ", "ma == ", "ma =~ ", "ma and ", "ma and on(", "ma and on(la,", "ma > bool on(la) group_left(", "ma{la!=", "ma{la=~\"x\",lb=",
	"sum(ma) by (la,", "sum(ma) by (la) ", "n{", "foo{", "sum(foo) by (", "sum(foo) ", "sum(ma) ", "avg(ma) ", "ma{la=\"x\"} + mb{la=", "ma{lb=\"x\"} + mb{la=")

func boundsC11(q bool) string {
	a, d, w := 8, 3, 2
	if !q {
		a, d, w = 13, 4, 2
	}
	return fmt.Sprintf("every history of <=%d requests over %d texts x 2 indexes; every history of <=%d over %d texts (indexes alternating) and <=3 over its first %d; every pair of texts of <=%d characters over %d; parsers of 6 small grammars: every history of 3 token strings of <=%d tokens; %s of 18 queries typed character by character, taken back and the next one typed; each request compared with a fresh process (parser)",
		d, a, w, len(c11Wide), map[bool]int{true: 16, false: 48}[q], map[bool]int{true: 2, false: 2}[q], len(c11Short(q)), map[bool]int{true: 2, false: 3}[q], map[bool]string{true: "every third pair", false: "every pair"}[q])
}

func c11Short(q bool) []string {
	l := []string{"m", "1", `"`, "{", "}", "(", ")", "=", " ", "#", "[", "-"}
	if !q {
		l = append(l, "'", "]", "\\", "é", ":", ",", "@", "\n")
	}
	return l
}

func runC11(h *vh.H) {
	history := func(rs []request) {
		rs = slices.Clone(rs)
		h.Case(func() string { return fmt.Sprintf("history %v", rs) }, func(c *vh.C) {
			for i, r := range rs {
				got := ask(r)
				c.Trans(1)
				if want := fresh(r); got != want {
					c.Failf("request %d (%v) after %v offers %s, a fresh process %s", i, r, rs[:i], brief(got), brief(want))
				}
				c.Outcome(got)
				c.State(fmt.Sprint(rs[:i+1]))
			}
			c.Trace()
		})
	}
	over := func(alpha []request, lo, hi int) {
		vh.Seqs(len(alpha), lo, hi, func(ix []int) {
			if h.Stop() {
				return
			}
			rs := make([]request, len(ix))
			for i, x := range ix {
				rs[i] = alpha[x]
			}
			history(rs)
		})
	}
	var deep []request
	for _, q := range []string{"", "ma{", `ma{la="`, `ma{la="x",`, "mb{la=", "sum(ma) by (", "sum by (", "ma +", "ma[5", `"`, "ma{la=", "sum(ma", "ma + on("}[:h.Pick(8, 13)] {
		for i := range c11Indexes {
			deep = append(deep, request{i, q, len(q)})
		}
	}
	over(deep, 1, h.Pick(3, 4))
	var wide []request
	for i, q := range c11Wide {
		wide = append(wide, request{i % 2, q, len(q)})
		if len(q) > 3 && h.Quick() == false {
			wide = append(wide, request{(i + 1) % 2, q, len(q) / 2})
		}
	}
	over(wide, 1, 2)
	over(wide[:h.Pick(16, 48)], 3, 3)
	var short []request
	for _, q := range words(c11Short(h.Quick()), 0, 2) {
		short = append(short, request{0, q, len(q)})
	}
	over(short, 2, 2)
	typing(h, history)
	small(h)
}

// typing: one text is typed character by character, taken back as far as it
// differs from the next one, which is then typed; with excursions of the cursor.
func typing(h *vh.H, history func([]request)) {
	texts := []string{
		`sum(rate(ma{la="x",lb!="y"}[5m:1m] offset 1h)) by (la, lb) > bool 1.5`,
		`sum by (la) (ma{la=~"x"}) / on(la) group_left(lb) mb{la="x"}`,
		`ma{la="x"} + mb{la="x"}`, `mb{lb="ma{la="} - ma{la="`, `avg without (la) (time() - ma) and on(lb) mb or ma unless mb`,
		`rate(mb[5m])`, `rate(mb[5`, `sum(sum(sum(sum(ma)))) by (lb)`, `  ma  {  la  =  "x"  }  `, `ma # comment`, `é + ma{la="é",lb="`, `ma)(mb{la=`,
		`-ma ^ -mb % 2e3`, `ma`, `topk`, `ma{la="x`, `'ma{la=`, `histogram_quantile(0.9, sum(rate(mb[1h])) by (la, lb))`,
	}
	for i, a := range texts {
		for j, b := range texts {
			if h.Stop() {
				return
			}
			if h.Quick() && (i+j)%3 != 0 {
				continue
			}
			for index := range c11Indexes {
				var rs []request
				common := 0
				for common < len(a) && common < len(b) && a[common] == b[common] {
					common++
				}
				for n := 0; n <= len(a); n++ {
					rs = append(rs, request{index, a[:n], n})
				}
				for n := len(a) - 1; n >= common; n -= 1 + len(a)/20 {
					rs = append(rs, request{index, a, n}) // the cursor moves back
				}
				for n := len(a) - 1; n >= common; n-- {
					rs = append(rs, request{index, a[:n], n})
				}
				for n := common; n <= len(b); n++ {
					rs = append(rs, request{index, b[:n], n})
				}
				rs = append(rs, request{1 - index, b, len(b)}, request{index, a, len(a)})
				history(rs)
			}
		}
	}
}

// small checks parsers of small grammars: a parser with a history answers like
// a new one.
func small(h *vh.H) {
	grammars := []smallGrammar{
		{1, []grule{{0, []gsym{-1}}, {0, []gsym{0, -2}}}, nil},
		{1, []grule{{0, []gsym{-1}}, {0, []gsym{-2, 0}}}, nil},
		{2, []grule{{0, []gsym{1, 0}}, {0, []gsym{1}}, {1, []gsym{-1}}, {1, []gsym{-2, -1}}}, nil},
		{2, []grule{{0, []gsym{1, -2}}, {1, []gsym{-1}}, {1, []gsym{1, -1}}}, nil},
		{1, []grule{{0, []gsym{0, 0}}, {0, []gsym{-1}}, {0, []gsym{-2}}}, nil},
		{2, []grule{{0, []gsym{-1, 1, -1}}, {0, []gsym{1}}, {1, []gsym{-2}}, {1, []gsym{0, -2}}}, nil},
	}
	var strs [][]int
	vh.Seqs(3, 0, h.Pick(2, 3), func(ix []int) { strs = append(strs, slices.Clone(ix)) })
	mk := func(s []int, base int) earley.Tokens {
		var t earley.Tokens
		for i, x := range s {
			k := []earley.TokenType{"x", "y", "x"}[x]
			t = append(t, earley.Tokhan{Val: []string{"x", "y", "x2"}[x], Type: k, StartPos: base + i, EndPos: base + i + 1})
		}
		return t
	}
	for gi := range grammars {
		g := &grammars[gi]
		g.terms = []smallTerm{{"x", ""}, {"y", ""}}
		build := func() *earley.Earley {
			nts := make([]earley.NonTerminalNode, g.nt)
			for i := range nts {
				nts[i] = earley.NewNonTerminal(string("RAB"[i]), i == 0)
			}
			var rs []*earley.GrammarRule
			for _, r := range g.rules {
				var syms []earley.Symbol
				for _, s := range r.r {
					if s >= 0 {
						syms = append(syms, nts[s])
					} else {
						syms = append(syms, earley.NewTerminal(earley.TokenType(g.terms[-1-s].tok)))
					}
				}
				rs = append(rs, earley.NewRule(nts[r.l], syms...))
			}
			return earley.NewEarleyParser(*earley.NewGrammar(rs...))
		}
		for a := range strs {
			for b := range strs {
				if h.Stop() {
					return
				}
				a, b := strs[a], strs[b]
				h.Case(func() string { return fmt.Sprintf("grammar %v: token strings %v, %v, then any", g, a, b) }, func(c *vh.C) {
					for i, s := range strs {
						p := build()
						hist := [][]int{a, b, s}
						for n, t := range hist {
							// the same string at another position is another input
							toks := mk(t, n%2*(i%2))
							got, want := suggested(p, toks), suggested(build(), toks)
							c.Trans(1)
							if !slices.Equal(got, want) {
								c.Failf("after %v, tokens %v: suggested %v, a new parser %v", hist[:n], t, got, want)
							}
						}
					}
					c.Trace()
				})
			}
		}
	}
}
