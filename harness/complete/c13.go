package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"verif/vh"
)

func boundsC13(q bool) string {
	n := "1-2 rules each for root and one non-terminal (right-hand sides of 1-2 symbols), 2 rule orders, and 1-rule grammars with three non-terminals, token strings of <=4"
	d := "6"
	if !q {
		n = "1-2 rules each for root and one non-terminal (right-hand sides of 1-2 symbols), all rule orders, 1 rule with right-hand sides of 1-3 symbols, and grammars with three non-terminals, token strings of <=5"
		d = "7"
	}
	pick := func(a, b int) int {
		if q {
			return a
		}
		return b
	}
	return fmt.Sprintf("every grammar with %s; sub-typed terminals; grammars of one non-terminal (right-hand sides of <=3) and two (<=2), each with a terminating rule: every token string u^a v^b with |u|,|v|<=2 of <=%d and <=%d tokens; PromQL: every u^a v^b and u^a operand v^b of <=%d tokens over %d repeatable constructs; PromQL: every viable sequence of <=%s token kinds from the start and of <=%d after each of %d longer prefixes, plus each non-viable kind after every one of them; every spelling of every token in written-out queries", n, pick(24, 36), pick(18, 30), pick(36, 60), len(longUnits), d, pick(2, 3), len(longPrefixes))
}

// suggested asks p for the kinds allowed after toks.
func suggested(p *earley.Earley, toks earley.Tokens) []string {
	n := len(toks)
	all := append(slices.Clone(toks), earley.Tokhan{Val: "", StartPos: 1000 + n, EndPos: 1000 + n, Type: earley.EOF})
	var out []string
	for _, s := range p.GetSuggestedTokenType(all) {
		out = append(out, string(s.TokenType))
	}
	sort.Strings(out)
	return out
}

func tok(i int, t earley.TokenType) earley.Tokhan {
	return earley.Tokhan{Val: fmt.Sprintf("%s", t), StartPos: i * 4, EndPos: i*4 + 3, Type: t}
}

// gsym is a symbol of a small grammar: >=0 non-terminal number, <0 terminal.
type gsym int

type grule struct {
	l int
	r []gsym
}

type smallGrammar struct {
	nt    int
	rules []grule
	terms []smallTerm
}

type smallTerm struct{ tok, sub string }

func (g *smallGrammar) String() string {
	var b strings.Builder
	for _, r := range g.rules {
		fmt.Fprintf(&b, "%c ->", "RABC"[r.l])
		for _, s := range r.r {
			if s >= 0 {
				fmt.Fprintf(&b, " %c", "RABC"[s])
			} else {
				t := g.terms[-1-s]
				if t.sub != "" {
					fmt.Fprintf(&b, " %s/%s", t.tok, t.sub)
				} else {
					fmt.Fprintf(&b, " %s", t.tok)
				}
			}
		}
		b.WriteString("; ")
	}
	return b.String()
}

// productive tells whether every non-terminal can produce something.
func (g *smallGrammar) productive() bool {
	var p [4]bool
	for ch := true; ch; {
		ch = false
		for _, r := range g.rules {
			if p[r.l] {
				continue
			}
			ok := true
			for _, s := range r.r {
				if s >= 0 && !p[s] {
					ok = false
				}
			}
			if ok {
				p[r.l], ch = true, true
			}
		}
	}
	for i := 0; i < g.nt; i++ {
		if !p[i] {
			return false
		}
	}
	return true
}

// oracle: all strings w such that some sentence starts with w, to length max,
// by saturation: D holds the strings each non-terminal derives, V the prefixes
// of its sentences, both cut at length max.
func (g *smallGrammar) viable(max int, alphabet []string) map[string]bool {
	D := make([]map[string]bool, g.nt)
	V := make([]map[string]bool, g.nt)
	for i := range D {
		D[i], V[i] = map[string]bool{}, map[string]bool{}
	}
	// a word is the concatenation of one-letter terminal codes
	for ch := true; ch; {
		ch = false
		for _, r := range g.rules {
			full := map[string]bool{"": true}
			for _, s := range r.r {
				// what is derived so far, then any prefix of s
				next := map[string]bool{}
				for w := range full {
					if s < 0 {
						c := string(rune('a' + (-1 - s)))
						if !V[r.l][w] {
							V[r.l][w], ch = true, true
						}
						if len(w) < max {
							next[w+c] = true
						}
						continue
					}
					for v := range V[s] {
						if len(w)+len(v) <= max && !V[r.l][w+v] {
							V[r.l][w+v], ch = true, true
						}
					}
					for d := range D[s] {
						if len(w)+len(d) <= max {
							next[w+d] = true
						}
					}
				}
				full = next
			}
			for w := range full {
				if !D[r.l][w] {
					D[r.l][w], ch = true, true
				}
				if !V[r.l][w] {
					V[r.l][w], ch = true, true
				}
			}
		}
	}
	return V[0]
}

// parser builds the parser under test for the grammar.
func (g *smallGrammar) parser() *earley.Earley {
	nts := make([]earley.NonTerminalNode, g.nt)
	for i := range nts {
		nts[i] = earley.NewNonTerminal(string("RABC"[i]), i == 0)
	}
	terms := make([]earley.EarleyNode, len(g.terms))
	for i, t := range g.terms {
		if t.sub == "" {
			terms[i] = earley.NewTerminal(earley.TokenType(t.tok))
		} else {
			terms[i] = earley.NewTerminalWithSubType(earley.TokenType(t.tok), earley.TokenType(t.sub))
		}
	}
	var rs []*earley.GrammarRule
	for _, r := range g.rules {
		var syms []earley.Symbol
		for _, s := range r.r {
			if s >= 0 {
				syms = append(syms, nts[s])
			} else {
				syms = append(syms, terms[-1-s])
			}
		}
		rs = append(rs, earley.NewRule(nts[r.l], syms...))
	}
	return earley.NewEarleyParser(*earley.NewGrammar(rs...))
}

// check compares the parser with the oracle on all token strings up to max.
func (g *smallGrammar) check(c *vh.C, max int) {
	p := g.parser()
	V := g.viable(max+1, nil)
	var alphabet []string
	for _, t := range g.terms {
		if !slices.Contains(alphabet, t.tok) {
			alphabet = append(alphabet, t.tok)
		}
	}
	// words of terminal codes compatible with the tokens read
	var rec func(toks earley.Tokens, words []string)
	rec = func(toks earley.Tokens, words []string) {
		var want []string
		for i, t := range g.terms {
			for _, w := range words {
				if V[w+string(rune('a'+i))] {
					k := t.tok
					if t.sub != "" {
						k = t.sub
					}
					want = append(want, k)
					break
				}
			}
		}
		sort.Strings(want)
		want = slices.Compact(want)
		got := suggested(p, toks)
		c.Trans(1)
		if !slices.Equal(got, want) {
			c.Failf("after %v: suggested %v, want %v", toks.Types(), got, want)
		}
		c.State(g.String(), strings.Join(toks.Types(), " "))
		c.Outcome(want...)
		if len(toks) == max {
			return
		}
		for _, a := range alphabet {
			var nw []string
			for _, w := range words {
				for i, t := range g.terms {
					if t.tok == a && V[w+string(rune('a'+i))] {
						nw = append(nw, w+string(rune('a'+i)))
					}
				}
			}
			if len(nw) == 0 && len(words) == 0 {
				continue // already dead
			}
			rec(append(toks[:len(toks):len(toks)], tok(len(toks), earley.TokenType(a))), nw)
		}
	}
	rec(nil, []string{""})
	c.Trace()
}

// table[A][i] is the set of ends j such that A derives w[i:j].
type table [][]uint64

// derive computes what each non-terminal derives within w (terminal numbers).
func (g *smallGrammar) derive(w []int) table {
	D := make(table, g.nt)
	for a := range D {
		D[a] = make([]uint64, len(w)+1)
	}
	for i := len(w); i >= 0; i-- {
		for ch := true; ch; {
			ch = false
			for _, r := range g.rules {
				if s := g.ends(D, w, i, r.r, -1, nil); s&^D[r.l][i] != 0 {
					D[r.l][i] |= s
					ch = true
				}
			}
		}
	}
	return D
}

// ends gives the positions reachable from i by the symbols.  If next is given,
// it also sets *hit when the symbols can read terminal next at the end of w.
func (g *smallGrammar) ends(D table, w []int, i int, syms []gsym, next int, hit func(nt, m int) bool) uint64 {
	cur := uint64(1) << i
	for _, x := range syms {
		var n uint64
		for m := i; m <= len(w); m++ {
			if cur>>m&1 == 0 {
				continue
			}
			if x < 0 {
				t := int(-1 - x)
				if m < len(w) && w[m] == t {
					n |= 1 << (m + 1)
				}
				if hit != nil && m == len(w) && t == next {
					hit(-1, m)
				}
				continue
			}
			n |= D[x][m]
			if hit != nil {
				hit(int(x), m)
			}
		}
		cur = n
	}
	return cur
}

// allows tells whether some sentence starts with w followed by terminal next,
// where D is the table of (something starting with) w.
func (g *smallGrammar) allows(D table, w []int, next int) bool {
	cut := make(table, g.nt)
	for a := range cut {
		cut[a] = make([]uint64, len(w)+1)
		for i := range cut[a] {
			cut[a][i] = D[a][i] & (1<<(len(w)+1) - 1)
		}
	}
	P := make([][]bool, g.nt) // P[A][i]: a sentence of A starts with w[i:] next
	for a := range P {
		P[a] = make([]bool, len(w)+1)
	}
	for i := len(w); i >= 0; i-- {
		for ch := true; ch; {
			ch = false
			for _, r := range g.rules {
				if P[r.l][i] {
					continue
				}
				yes := false
				g.ends(cut, w, i, r.r, next, func(nt, m int) bool {
					yes = yes || nt < 0 || P[nt][m]
					return yes
				})
				if yes {
					P[r.l][i], ch = true, true
				}
			}
		}
	}
	return P[0][0]
}

// checkLong compares the parser with the oracle on all token strings u^a v^b of
// up to max tokens, for all u and v of up to 2 tokens.
func (g *smallGrammar) checkLong(c *vh.C, max int) {
	p := g.parser()
	// try checks what follows w; it tells which terminals do
	try := func(w []int) (next []bool) {
		D := g.derive(w)
		var toks earley.Tokens
		for i, t := range w {
			toks = append(toks, tok(i, earley.TokenType(g.terms[t].tok)))
		}
		var want []string
		next = make([]bool, len(g.terms))
		for t := range g.terms {
			if g.allows(D, w, t) {
				next[t] = true
				want = append(want, g.terms[t].tok)
			}
		}
		sort.Strings(want)
		c.Trans(1)
		c.NoteMax("longest token string", len(w))
		if got := suggested(p, toks); !slices.Equal(got, want) {
			c.Failf("after %v: suggested %v, want %v", toks.Types(), got, want)
		}
		return next
	}
	var units [][]int
	vh.Seqs(len(g.terms), 1, 2, func(ix []int) { units = append(units, slices.Clone(ix)) })
	// grow appends v to w as long as that's viable
	var grow func(w, v []int, each func(w []int))
	grow = func(w, v []int, each func(w []int)) {
		next := try(w)
		for len(w)+len(v) <= max {
			for _, t := range v {
				if !next[t] {
					return
				}
				w = append(w[:len(w):len(w)], t)
				next = try(w)
			}
			if each != nil {
				each(w)
			}
		}
	}
	for _, u := range units {
		grow(nil, u, func(w []int) {
			for _, v := range units {
				if !slices.Equal(u, v) {
					grow(w, v, nil)
				}
			}
		})
	}
	c.Trace()
}

// rhs lists every right-hand side of lo..hi symbols.
func rhs(nt, nterm, lo, hi int) [][]gsym {
	var out [][]gsym
	vh.Seqs(nt+nterm, lo, hi, func(ix []int) {
		r := make([]gsym, len(ix))
		for i, x := range ix {
			if x < nt {
				r[i] = gsym(x)
			} else {
				r[i] = gsym(-1 - (x - nt))
			}
		}
		out = append(out, r)
	})
	return out
}

var longPrefixes = []string{
	"agg ( metric { label lmatch str",
	"agg ( metric ) aggkw ( label ,",
	"agg aggkw ( label ) ( metric { label lmatch str , label lmatch str }",
	"metric { label lmatch str } [ dur",
	"metric { label lmatch str } [ dur ] offset dur",
	"vfunc ( metric [ dur : dur ]",
	"vfunc ( num , metric [ dur ]",
	"vfunc ( vfunc ( vfunc ( metric [ dur",
	"metric cmp bool groupkw ( label ) side ( label )",
	"metric arith groupkw ( label ,",
	"metric set groupkw ( label )",
	"( metric arith metric ) set (",
	"( num arith num ) cmp bool (",
	"sfunc ( unary vfunc ( num )",
	"num cmp num arith metric",
	"num cmp bool num arith (",
	"unary ( ( metric arith num )",
	"agg ( agg ( agg ( metric ) aggkw ( ) )",
	"agg ( ( unary metric offset dur",
	"vfunc ( num arith num , num cmp bool num , unary",
	"( ( unary num ) arith num )",
	"agg ( metric ) aggkw ( label ) [ dur :",
	"metric arith num set metric arith",
	"metric set num cmp",
}

// tokOf gives a token kind that stands for the terminal.
func tokOf(term string) earley.TokenType {
	if term == "metric" || term == "label" {
		return earley.ID
	}
	for _, t := range tokKinds {
		if slices.Contains(tokTerms[t], term) {
			return t
		}
	}
	panic("no token for " + term)
}

func runC13(h *vh.H) {
	xy := []smallTerm{{"x", ""}, {"y", ""}}
	family := func(nt, lo, hi, maxRules, maxLen int, allOrders bool, terms []smallTerm) {
		rh := rhs(nt, len(terms), lo, hi)
		var sets [][]int
		vh.Subsets(len(rh), maxRules, func(s []int) {
			if len(s) > 0 {
				sets = append(sets, slices.Clone(s))
			}
		})
		dims := make([]int, nt)
		for i := range dims {
			dims[i] = len(sets)
		}
		vh.Product(dims, func(ix []int) {
			if h.Stop() {
				return
			}
			g := &smallGrammar{nt: nt, terms: terms}
			for i, s := range ix {
				for _, r := range sets[s] {
					g.rules = append(g.rules, grule{i, rh[r]})
				}
			}
			h.Case(g.String, func(c *vh.C) {
				if !g.productive() {
					c.Note("skipped: a non-terminal produces nothing", 1)
					return
				}
				if allOrders {
					perm := make([]int, len(g.rules))
					for i := range perm {
						perm[i] = i
					}
					vh.Perms(perm, func(p []int) {
						q := &smallGrammar{nt: g.nt, terms: g.terms}
						for _, i := range p {
							q.rules = append(q.rules, g.rules[i])
						}
						q.check(c, maxLen)
					})
					return
				}
				g.check(c, maxLen)
				q := &smallGrammar{nt: g.nt, terms: g.terms, rules: slices.Clone(g.rules)}
				slices.Reverse(q.rules)
				q.check(c, maxLen)
			})
		})
	}
	if h.Quick() {
		family(2, 1, 2, 1, 5, true, xy)
		family(2, 1, 2, 2, 4, false, xy)
		family(2, 1, 2, 1, 4, true, []smallTerm{{"x", ""}, {"x", "s"}, {"x", "t"}, {"y", ""}})
		family(3, 1, 2, 1, 4, false, xy)
	} else {
		family(2, 1, 2, 2, 5, true, xy)
		family(2, 1, 3, 1, 6, true, xy)
		family(2, 1, 2, 1, 5, true, []smallTerm{{"x", ""}, {"x", "s"}, {"x", "t"}, {"y", ""}})
		family(3, 1, 2, 1, 6, true, xy)
	}
	// long token strings
	long := func(nt, hi int, max int) {
		rh := rhs(nt, 2, 1, hi)
		dims := make([]int, nt)
		for i := range dims {
			dims[i] = len(rh)
		}
		vh.Product(dims, func(ix []int) {
			// one rule for each non-terminal, and one that ends it
			for end := 0; end < 2; end++ {
				g := &smallGrammar{nt: nt, terms: xy}
				for i, r := range ix {
					g.rules = append(g.rules, grule{i, rh[r]}, grule{i, []gsym{gsym(-1 - end)}})
				}
				h.Case(func() string { return "long: " + g.String() }, func(c *vh.C) { g.checkLong(c, max) })
			}
		})
	}
	long(1, 3, h.Pick(24, 36))
	long(2, 2, h.Pick(18, 30))
	if !h.Quick() {
		long(2, 3, 20)
	}
	promQL(h)
	longPromQL(h)
	promQLText(h)
}

// promQLText writes queries out: each spelling of each token must count as a
// token of its kind, that is, the same kinds follow it.
func promQLText(h *vh.H) {
	pc := earley.NewPromQLCompleter(c14Index)
	check := func(c *vh.C, q query, tight bool) {
		text := q.render(tight)
		must, weak := q.expect("")
		str := q.cfg.terms()["str"]
		want, got := map[string]bool{}, map[string]bool{}
		for _, o := range must {
			want[o.kind] = true
		}
		for _, m := range pc.GenerateSuggestions(text, len(text)) {
			if k := m.GetKind(); str {
				got[""] = true
			} else if len(weak) == 0 || k != "metric-label" {
				got[k] = true
			}
		}
		c.Trans(1)
		if g, w := kindList(got), kindList(want); g != w {
			c.Failf("after %q may follow\n  %s\nwant\n  %s", text, g, w)
		}
		c.State(text)
	}
	prefixes := c14Prefixes()
	for _, p := range []string{"metric arith groupkw ( label )", "metric cmp groupkw ( label ) side", "metric set", "metric offset", "agg aggkw", "metric cmp bool", "sfunc (", "vfunc (", "agg (", "metric [ dur ] offset dur", "num cmp bool num", "metric set groupkw ( ) metric", "unary metric", "metric { label lmatch"} {
		prefixes = append(prefixes, p)
	}
	for _, p := range prefixes {
		if strings.Contains(p, `"`) {
			continue
		}
		fields := strings.Fields(p)
		for i, f := range fields {
			term, _, _ := strings.Cut(f, ":")
			if f == ":" || term == "label" || term == "metric" {
				continue
			}
			var ws []string
			if k, ok := termKind[term]; ok {
				for _, w := range vocabulary[k] {
					ws = append(ws, w, strings.ToUpper(w))
				}
				if term == "sfunc" || term == "vfunc" {
					ws = vocabulary[k]
				}
			}
			for _, w := range append(ws, termVariants[term]...) {
				h.Case(func() string { return fmt.Sprintf("PromQL: %q with %s for token %d", p, w, i) }, func(c *vh.C) {
					q := startQuery()
					for j, g := range fields {
						t, text, chosen := g, "", false
						if len(g) > 1 {
							t, text, chosen = strings.Cut(g, ":")
						}
						if !chosen {
							text = g
							if x := termText[g]; x != nil {
								text = x[0]
							}
						}
						if j == i {
							text = w
						}
						q = q.add(t, text)
						if j >= i {
							check(c, q, false)
							check(c, q, true)
						}
					}
					c.Trace()
				})
			}
		}
	}
}

func kindList(m map[string]bool) string {
	var ls []string
	for k := range m {
		ls = append(ls, k)
	}
	sort.Strings(ls)
	return strings.Join(ls, " ")
}

// longUnits are what a PromQL query can repeat.
var longUnits = []string{"(", "agg (", "num arith", "metric arith", "metric { label lmatch str } set", "( metric arith", "( num arith", "vfunc (", "num cmp bool", "vfunc ( num ,",
	"unary (", "agg aggkw ( label , label ) (", "sfunc (", "metric )", ")", ") aggkw ( label )", ") arith metric", ") arith num", "[ dur : ]", "arith", ") set groupkw ( label ) metric", ", metric", "metric cmp groupkw ( label ) side ( label )"}

// longPromQL checks queries that repeat one construct and then another one.
func longPromQL(h *vh.H) {
	max := h.Pick(36, 60)
	for _, u := range longUnits {
		for _, v := range longUnits {
			if u == v {
				continue
			}
			h.Case(func() string { return fmt.Sprintf("PromQL: repeated %q, then repeated %q", u, v) }, func(c *vh.C) {
				suggested(earley.PromQLParser, nil)
				type point struct {
					toks earley.Tokens
					cfg  config
				}
				grow := func(p point, unit string, each func(point)) {
					for {
						for _, t := range strings.Fields(unit) {
							k := tokOf(t)
							p = point{append(p.toks[:len(p.toks):len(p.toks)], tok(len(p.toks), k)), p.cfg.step(tokTerms[k]...)}
							if len(p.cfg) > 600 || len(p.toks) > max {
								return
							}
							checkPromQL(c, p.toks, p.cfg)
							if len(p.cfg) == 0 {
								return
							}
						}
						c.NoteMax("longest query in tokens", len(p.toks))
						if each != nil {
							each(p)
						}
					}
				}
				grow(point{nil, startConfig()}, u, func(p point) {
					for _, mid := range []string{"", "metric", "num"} {
						q := p
						if mid != "" {
							k := tokOf(mid)
							q = point{append(p.toks[:len(p.toks):len(p.toks)], tok(len(p.toks), k)), p.cfg.step(tokTerms[k]...)}
							if len(q.cfg) == 0 {
								continue
							}
							checkPromQL(c, q.toks, q.cfg)
						}
						grow(q, v, nil)
					}
				})
				c.Trace()
			})
		}
	}
}

func promQL(h *vh.H) {
	// explore checks everything reachable from (toks, cfg) by at most depth tokens
	var explore func(c *vh.C, toks earley.Tokens, cfg config, depth int)
	explore = func(c *vh.C, toks earley.Tokens, cfg config, depth int) {
		checkPromQL(c, toks, cfg)
		if depth == 0 {
			return
		}
		for _, k := range tokKinds {
			next := cfg.step(tokTerms[k]...)
			nt := append(toks[:len(toks):len(toks)], tok(len(toks), k))
			if len(next) == 0 {
				if k != earley.EOF {
					checkPromQL(c, nt, next)
				}
				continue
			}
			explore(c, nt, next, depth-1)
		}
	}
	reset := func() { suggested(earley.PromQLParser, nil) }
	for _, lp := range longPrefixes {
		lp := lp
		h.Case(func() string { return "PromQL after " + lp }, func(c *vh.C) {
			reset()
			cfg := startConfig()
			var toks earley.Tokens
			for _, t := range strings.Fields(lp) {
				cfg = cfg.step(tokTerms[tokOf(t)]...)
				toks = append(toks, tok(len(toks), tokOf(t)))
				checkPromQL(c, toks, cfg)
			}
			if len(cfg) == 0 {
				panic("harness: dead prefix " + lp)
			}
			explore(c, toks, cfg, h.Pick(2, 3))
			c.Trace()
		})
	}
	// all viable prefixes of a fixed length, then everything below each
	head := h.Pick(2, 3)
	depth := h.Pick(6, 7)
	var walk func(toks earley.Tokens, cfg config)
	walk = func(toks earley.Tokens, cfg config) {
		if h.Stop() {
			return
		}
		if len(toks) < head {
			h.Case(func() string { return fmt.Sprintf("PromQL exactly %v", toks.Types()) }, func(c *vh.C) {
				reset()
				explore(c, toks, cfg, 0)
				c.Trace()
			})
			for _, k := range tokKinds {
				if next := cfg.step(tokTerms[k]...); len(next) > 0 {
					walk(append(toks[:len(toks):len(toks)], tok(len(toks), k)), next)
				}
			}
			return
		}
		h.Case(func() string { return fmt.Sprintf("PromQL after %v", toks.Types()) }, func(c *vh.C) {
			reset()
			explore(c, toks, cfg, depth-len(toks))
			c.Trace()
		})
	}
	walk(nil, startConfig())
}

func checkPromQL(c *vh.C, toks earley.Tokens, cfg config) {
	want := cfg.kinds()
	got := suggested(earley.PromQLParser, toks)
	c.Trans(1)
	c.State(toks.Types()...)
	c.Outcome(want...)
	if !slices.Equal(got, want) {
		c.Failf("after %v: suggested %v, want %v", toks.Types(), got, want)
	}
}
