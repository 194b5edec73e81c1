package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/c-bata/go-prompt"

	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"verif/vh"
)

// index is a completion index with fixed contents.
type index map[string]map[string][]string

func (x index) GetMetricNames() sets.String {
	return sets.StringKeySet(map[string]map[string][]string(x))
}
func (x index) GetStoredDimensionsForMetric(m string) sets.String {
	return sets.StringKeySet(x[m])
}
func (x index) GetStoredValuesForMetricAndDimension(m, d string) sets.String {
	return sets.NewString(x[m][d]...)
}

// chars are the characters with a meaning of their own, and one of each other class.
var c12Chars = []string{"a", "m", "1", ".", `"`, "'", "`", `\`, "{", "}", "(", ")", "[", "]", "=", "!", "~", "<", ">", "+", "-", ",", ":", "#", "@", " ", "\n", "é", "世", "\xff", "_", "/", "\t", "😀"}

var c12Pieces = []string{"sum(", "m", "m{", "a=", `"x"`, `"`, "}", " by (", ")", "[", "5m", "[5m:", "]", " offset ", " + ", " and on(", ",", "世", "é", "rate(", "1", " > bool ", "# c'", "'", "`", "\n", " group_left ", "-", "@", "1e", "0x", "..", "time("}

func boundsC12(q bool) string {
	return fmt.Sprintf("every text of <=3 characters over %d (all lexically special ones, non-ASCII, invalid UTF-8) with every cursor position, every text of %s; every sequence of <=%d out of %d query pieces with every cursor position, and every pair of them repeated 4 (thorough: 9) times; every viable query prefix of <=%d tokens and <=1 after each of %d longer ones, followed by 18 partial words", len(c12Chars), map[bool]string{true: "4 over the 17 most special", false: "4 over all of them"}[q], map[bool]int{true: 2, false: 3}[q], len(c12Pieces), map[bool]int{true: 4, false: 5}[q], len(c14Prefixes()))
}

func matchString(ms []autocomplete.Match) string {
	var b strings.Builder
	for _, m := range ms {
		fmt.Fprintf(&b, "%s\x00%s\x00%s\n", m.GetValue(), m.GetKind(), m.GetDetail())
	}
	return b.String()
}

func sugString(ms []prompt.Suggest) string {
	var b strings.Builder
	for _, m := range ms {
		fmt.Fprintf(&b, "%s\x00%s\n", m.Text, m.Description)
	}
	return b.String()
}

var c12Index = index{"m": {"a": {"x", "é\"b"}, "b": {"1"}}, "mé": {"a": {"x"}}, "m_世": {}}

// caseC12 checks one text at the given cursor positions.
func caseC12(c *vh.C, text string, allCursors bool) {
	pc := earley.NewPromQLCompleter(c12Index)
	comp := metrics.NewCompleter(pc)
	// directly, at every character boundary
	for pos := 0; pos <= len(text); pos++ {
		if !allCursors && pos < len(text) || pos < len(text) && !utf8.RuneStart(text[pos]) {
			continue
		}
		got := matchString(pc.GenerateSuggestions(text, pos))
		c.Trans(1)
		if pos < len(text) {
			if want := matchString(pc.GenerateSuggestions(text[:pos], pos)); got != want {
				c.Failf("GenerateSuggestions(%q, %d) depends on text after the cursor: %q, without it %q", text, pos, got, want)
			}
		}
		c.Outcome(got)
	}
	// through the prompt
	n := utf8.RuneCountInString(text)
	rs := []rune(text)
	for back := 0; back <= n; back++ {
		if !allCursors && back > 0 {
			break
		}
		b := prompt.NewBuffer()
		b.InsertText(text, false, true)
		b.CursorLeft(back)
		doc := b.Document()
		before := doc.TextBeforeCursor()
		if !strings.Contains(text, "\n") && before != string(rs[:n-back]) {
			panic("harness: cursor not where expected")
		}
		got := comp.Complete(*doc)
		if got == nil {
			c.Failf("Complete(%q, cursor %d before the end) returned no list", text, back)
		}
		var want string
		if before != "" { // nothing is offered before anything is typed
			b := prompt.NewBuffer()
			b.InsertText(before, false, true)
			alone := comp.Complete(*b.Document())
			want = sugString(alone)
			// (what is inserted instead of the word before the cursor is C29's matter)
			ms := pc.GenerateSuggestions(before, len(before))
			if len(ms) != len(alone) {
				c.Failf("Complete(%q) offers %d suggestions, there are %d", before, len(alone), len(ms))
			}
			var d1, d2 []string
			for i, m := range ms {
				d1, d2 = append(d1, m.GetDetail()), append(d2, alone[i].Description)
			}
			sort.Strings(d1)
			sort.Strings(d2)
			if !slices.Equal(d1, d2) {
				c.Failf("Complete(%q) gives descriptions %q, want %q", before, d2, d1)
			}
		}
		c.Trans(2)
		if sugString(got) != want {
			c.Failf("Complete(%q, cursor %d before the end) returned %q, but completing the text before the cursor gives %q", text, back, sugString(got), want)
		}
	}
	c.Trace()
	c.State(text)
}

func runC12(h *vh.H) {
	text := func(s string, all bool) {
		h.Case(func() string { return fmt.Sprintf("text %q, all cursors %v", s, all) }, func(c *vh.C) { caseC12(c, s, all) })
	}
	seqs := func(alpha []string, lo, hi int, all bool) {
		vh.Seqs(len(alpha), lo, hi, func(ix []int) {
			if h.Stop() {
				return
			}
			var b strings.Builder
			for _, i := range ix {
				b.WriteString(alpha[i])
			}
			text(b.String(), all)
		})
	}
	seqs(c12Pieces, 0, h.Pick(2, 3), true)
	seqs(c12Chars, 0, 3, true)
	if h.Quick() {
		seqs([]string{"m", "1", `"`, "'", `\`, "{", "}", "(", ")", "[", "]", "=", ":", "#", " ", "é", "\xff"}, 4, 4, false)
	} else {
		seqs(c12Chars, 4, 4, false)
	}
	// pairs of pieces, repeated
	vh.Product([]int{len(c12Pieces), len(c12Pieces)}, func(ix []int) {
		for _, n := range []int{4, 9}[:h.Pick(1, 2)] {
			if h.Stop() {
				return
			}
			text(strings.Repeat(c12Pieces[ix[0]]+c12Pieces[ix[1]], n), h.Pick(0, 1) == 1 || (ix[0]+ix[1])%5 == 0)
		}
	})
	// starts of queries, followed by something
	tails := []string{"", "l", "m", "s", "zz", `"`, "'x", "5", "5x", ":", ":5", "\xff", "é", ".", "_", "!", `\`, "#"}
	starts := func(c *vh.C, q query) {
		for _, tight := range []bool{false, true} {
			for _, t := range tails {
				caseC12(c, q.render(tight)+t, false)
			}
		}
	}
	for _, p := range c14Prefixes() {
		q := queryOf(p)
		h.Case(func() string { return fmt.Sprintf("parts of %q and what follows", q.render(false)) }, func(c *vh.C) {
			caseC12(c, q.render(true), true)
			starts(c, q)
			for _, n := range q.exts() {
				starts(c, n)
			}
		})
	}
	var walk func(q query, depth int)
	walk = func(q query, depth int) {
		if h.Stop() {
			return
		}
		h.Case(func() string { return fmt.Sprintf("%q and what follows", q.render(false)) }, func(c *vh.C) { starts(c, q) })
		if depth > 0 {
			for _, n := range q.exts() {
				walk(n, depth-1)
			}
		}
	}
	walk(startQuery(), h.Pick(4, 5))
	// long and deeply nested texts
	for _, p := range []string{"(", "sum(", "m{", `"`, "[", "a", "1", "+", "-", "1+", "m,", "é", "# ", `\`, "rate(m[", "m{a=\"x\",", "\xff"} {
		for _, n := range []int{10, 30, h.Pick(60, 200)} {
			p, n := p, n
			h.Case(func() string { return fmt.Sprintf("%d times %q", n, p) }, func(c *vh.C) { caseC12(c, strings.Repeat(p, n), false) })
		}
	}
}
