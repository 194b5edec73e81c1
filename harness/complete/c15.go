package main

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
	"unicode"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"verif/vh"
)

func boundsC15(q bool) string {
	return fmt.Sprintf("prefix and fuzzy filtering, with and without ignoring case: every candidate set of <=%d strings out of all strings of <=%d characters over {a,A,b,é,É} plus 14 others (larger sets: every residue class) against every pattern of <=3 characters; quoting: every string of <=%d characters over 14 (quotes, backslash, control, non-ASCII, invalid UTF-8); texts and patterns of every length up to %d, up to %d candidates", map[bool]int{true: 3, false: 4}[q], 2, map[bool]int{true: 3, false: 4}[q], map[bool]int{true: 80, false: 300}[q], map[bool]int{true: 1600, false: 22500}[q])
}

func words(alpha []string, lo, hi int) []string {
	var out []string
	vh.Seqs(len(alpha), lo, hi, func(ix []int) {
		var b strings.Builder
		for _, i := range ix {
			b.WriteString(alpha[i])
		}
		out = append(out, b.String())
	})
	return out
}

func foldRunes(s string) []rune {
	r := []rune(s)
	for i := range r {
		r[i] = unicode.ToLower(r[i])
	}
	return r
}

// keeps decides by definition whether cand is to be kept.
func keeps(cand, pat string, ignoreCase, fuzzy bool) bool {
	c, p := []rune(cand), []rune(pat)
	if ignoreCase {
		c, p = foldRunes(cand), foldRunes(pat)
	}
	if !fuzzy {
		return len(c) >= len(p) && slices.Equal(c[:len(p)], p)
	}
	// longest-match table: p[:j] is a subsequence of c[:i]
	m := make([][]bool, len(c)+1)
	for i := range m {
		m[i] = make([]bool, len(p)+1)
		m[i][0] = true
		for j := 1; j <= len(p) && i > 0; j++ {
			m[i][j] = m[i-1][j] || (m[i-1][j-1] && c[i-1] == p[j-1])
		}
	}
	return m[len(c)][len(p)]
}

func runC15(h *vh.H) {
	alpha := []string{"a", "A", "b", "é", "É"}
	cands := words(alpha, 0, 2)
	cands = append(cands, "aba", "bAa", "Good food", "ééb", "a b", "bab\xff", "ab_b",
		// characters whose bytes or lengths, but not themselves, are those of others
		"Ã©", "Ã", "©", "Éa©", "\u212ab", "Åk", "世丗")
	pats := words(alpha, 0, 3)
	pats = append(pats, "dog", "DoG", "b\xff", " ", "_b", "k", "kb", "\u212a", "©", "Ã©", "世", "丗", "å")
	one := func(set []string) {
		set = slices.Clone(set)
		h.Case(func() string { return fmt.Sprintf("filter %q by every pattern", set) }, func(c *vh.C) {
			in := sets.NewString(set...)
			for _, p := range pats {
				for mode := 0; mode < 4; mode++ {
					ic, fz := mode&1 != 0, mode&2 != 0
					f := autocomplete.FilterPrefix
					if fz {
						f = autocomplete.FilterFuzzy
					}
					got := f(in, p, ic).List()
					var want []string
					for _, s := range sets.NewString(set...).List() {
						if keeps(s, p, ic, fz) {
							want = append(want, s)
						}
					}
					c.Trans(1)
					c.Outcome(want...)
					if !slices.Equal(got, want) {
						c.Failf("pattern %q (ignoreCase %v, fuzzy %v) kept %q, want %q", p, ic, fz, got, want)
					}
					if !in.Equal(sets.NewString(set...)) {
						c.Failf("pattern %q (ignoreCase %v, fuzzy %v) changed the candidates to %q", p, ic, fz, in.List())
					}
				}
			}
			c.Trace()
			c.State(set...)
		})
	}
	vh.Subsets(len(cands), h.Pick(3, 4), func(ix []int) {
		s := make([]string, len(ix))
		for i, x := range ix {
			s[i] = cands[x]
		}
		one(s)
	})
	for stride := 1; stride <= 7; stride++ {
		for off := 0; off < stride; off++ {
			var s []string
			for i := off; i < len(cands); i += stride {
				s = append(s, cands[i])
			}
			one(s)
		}
	}
	// sizes: long candidates and patterns, many candidates
	judge := func(name string, in []string, ps []string) {
		h.Case(func() string { return name }, func(c *vh.C) {
			set := sets.NewString(in...)
			in := set.UnsortedList()
			for _, p := range ps {
				for mode := 0; mode < 4; mode++ {
					ic, fz := mode&1 != 0, mode&2 != 0
					f := autocomplete.FilterPrefix
					if fz {
						f = autocomplete.FilterFuzzy
					}
					got := f(set, p, ic)
					c.Trans(1)
					n := 0
					for _, s := range in {
						w := keeps(s, p, ic, fz)
						if w {
							n++
						}
						if got.Has(s) != w {
							c.Failf("pattern %q (ignoreCase %v, fuzzy %v): %q kept: %v", p, ic, fz, s, !w)
						}
					}
					if len(got) != n || len(set) != len(in) {
						c.Failf("pattern %q (ignoreCase %v, fuzzy %v) kept %d of %d candidates, want %d", p, ic, fz, len(got), len(set), n)
					}
				}
			}
			back := sets.String{}
			for l := range autocomplete.Enquote(set) {
				u, err := strconv.Unquote(l)
				if err != nil || l[0] != '"' {
					c.Failf("literal %s: %v", l, err)
				}
				back.Insert(u)
			}
			if !back.Equal(set) {
				c.Failf("quoted and read back: %q", back.List())
			}
			c.Trace()
			c.State(name)
		})
	}
	for n := 1; n <= h.Pick(80, 300); n++ {
		rep := strings.Repeat
		judge(fmt.Sprintf("texts of %d characters", n), []string{rep("a", n), rep("a", n) + "b", rep("A", n), "b" + rep("a", n), rep("ab", n), rep("aé", n), rep("É", n)},
			[]string{rep("a", n), rep("a", n+1), rep("A", n) + "b", rep("a", n/2) + "b", rep("ba", n/2) + "b", rep("é", n), rep("éa", n) + "é", rep("é", n-1) + "a"})
		var in []string
		for i := 0; i < n*n/4+1; i++ {
			in = append(in, fmt.Sprintf([]string{"m_%d", "M_%d", "\"%d", "é_%d"}[i%4], i*7919%10007))
		}
		judge(fmt.Sprintf("%d candidates", len(in)), in, []string{"m", "m_", "M_1", "_", "1", "\"5", "é_", "11", "m_7919"})
	}
	qa := []string{`"`, `\`, "'", "`", "\n", "\t", "\x00", "\x7f", "a", "é", "世", "\xff", "\u2028", "😀", "n", " "}
	qw := words(qa, 0, h.Pick(3, 4))
	for i := range qw {
		w := qw[i]
		o := qw[(i*7+3)%len(qw)]
		h.Case(func() string { return fmt.Sprintf("enquote {%q, %q}", w, o) }, func(c *vh.C) {
			in := sets.NewString(w, o)
			out := autocomplete.Enquote(in)
			var back []string
			for _, l := range out.List() {
				if len(l) < 2 || l[0] != '"' || l[len(l)-1] != '"' {
					c.Failf("%q is not a double-quoted literal", l)
				}
				u, err := strconv.Unquote(l)
				if err != nil {
					c.Failf("literal %s does not read back: %v", l, err)
				}
				back = append(back, u)
			}
			c.Trans(1)
			if !sets.NewString(back...).Equal(sets.NewString(w, o)) || len(out) != len(sets.NewString(w, o)) {
				c.Failf("quoted %q reads back as %q", in.List(), back)
			}
			if !in.Equal(sets.NewString(w, o)) {
				c.Failf("quoting changed its input to %q", in.List())
			}
			c.Trace()
		})
	}
}
