package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/c-bata/go-prompt"

	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"verif/vh"
)

// How the prompt handles a key; what it returns is what was entered, if anything.
//
//go:linkname feed github.com/c-bata/go-prompt.(*Prompt).feed
func feed(p *prompt.Prompt, key []byte) (bool, *prompt.Exec)

type noTerminal struct{}

func (noTerminal) Setup() error                { return nil }
func (noTerminal) TearDown() error             { return nil }
func (noTerminal) GetWinSize() *prompt.WinSize { return &prompt.WinSize{Row: 24, Col: 300} }
func (noTerminal) Read() ([]byte, error)       { return nil, nil }

// acceptor is a prompt with the command's completer.
type acceptor struct {
	p     *prompt.Prompt
	menu  *prompt.CompletionManager
	pc    autocomplete.PromQLCompleter
	cache map[string][]prompt.Suggest
}

func newAcceptor() *acceptor {
	a := &acceptor{pc: earley.NewPromQLCompleter(c14Index)}
	comp := metrics.NewCompleter(a.pc)
	// asking again for the same text makes no difference
	comps := func(d prompt.Document) []prompt.Suggest {
		k := d.TextBeforeCursor() + "\x00" + d.TextAfterCursor()
		if s, ok := a.cache[k]; ok {
			return s
		}
		s := comp.Complete(d)
		if a.cache[k] = s; len(a.cache) > 100 {
			clear(a.cache)
		}
		return s
	}
	a.cache = map[string][]prompt.Suggest{}
	r := &prompt.Render{}
	set(r, "col", uint16(300))
	set(r, "row", uint16(24))
	a.p = &prompt.Prompt{}
	a.menu = prompt.NewCompletionManager(comps, 6)
	set(r, "livePrefixCallback", func() (string, bool) { return "", false })
	set(a.p, "renderer", r)
	set(a.p, "history", prompt.NewHistory())
	set(a.p, "completion", a.menu)
	set(a.p, "keyBindMode", prompt.EmacsKeyBind)
	for _, o := range []prompt.Option{prompt.OptionParser(noTerminal{}), prompt.OptionWriter(&silent{}), prompt.OptionCompletionWordSeparator(metrics.PromQLTokenSeparators)} {
		if err := o(a.p); err != nil {
			panic(err)
		}
	}
	return a
}

type silent struct{ prompt.VT100Writer }

func (*silent) Flush() error       { return nil }
func (*silent) Write([]byte)       {}
func (*silent) WriteStr(string)    {}
func (*silent) WriteRaw([]byte)    {}
func (*silent) WriteRawStr(string) {}

// set sets a field of the prompt.
func set(ptr any, name string, x any) {
	f := reflect.ValueOf(ptr).Elem().FieldByName(name)
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(x))
}

// accept gives what's entered after pressing a key n times with the cursor
// between the two texts; ok is whether a suggestion was selected.
func (a *acceptor) accept(before, after, key string, n int) (string, bool) {
	b := prompt.NewBuffer()
	b.InsertText(before, false, true)
	b.InsertText(after, false, false)
	set(a.p, "buf", b)
	a.menu.Reset()
	a.menu.Update(*b.Document())
	for i := 0; i < n; i++ {
		feed(a.p, []byte(key))
		a.menu.Update(*b.Document())
	}
	_, ok := a.menu.GetSelectedSuggestion()
	_, e := feed(a.p, []byte("\r"))
	return reflect.ValueOf(e).Elem().FieldByName("input").String(), ok
}

func boundsC29(q bool) string {
	return fmt.Sprintf("every viable query prefix of <=%d tokens from the start and <=1 after each of %d longer ones (with and without optional blanks), followed by each of %d partial words, with each of 2 texts after the cursor: every suggestion offered is accepted", map[bool]int{true: 4, false: 5}[q], len(c14Prefixes()), len(c14Partials))
}

func (q query) acceptAll(c *vh.C, a *acceptor) {
	for _, tight := range []bool{false, true} {
		if tight && q.render(true) == q.render(false) {
			continue
		}
		for _, p := range c14Partials {
			text := q.render(tight) + p
			var want []string
			for _, m := range a.pc.GenerateSuggestions(text, len(text)) {
				if v := m.GetValue(); m.GetKind() == "time-unit" {
					want = append(want, text+v)
				} else {
					want = append(want, text[:len(text)-len(p)]+v)
				}
			}
			if text == "" {
				want = nil // nothing is offered for no text
			}
			sort.Strings(want)
			for _, after := range []string{"", "}[5m])"} {
				var got []string
				for n := 1; n <= len(want); n++ {
					s, ok := a.accept(text, after, "\t", n)
					if !ok {
						break
					}
					got = append(got, strings.TrimSuffix(s, after))
				}
				c.Trans(len(got))
				sort.Strings(got)
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					c.Failf("accepting the suggestions for %q|%q gives\n  %q\nwant\n  %q", text, after, got, want)
				}
				if s, ok := a.accept(text, after, "\t", len(want)+1); ok || s != text+after {
					c.Failf("%q|%q: a suggestion too many: %q", text, after, s)
				}
			}
			c.Outcome(fmt.Sprint(len(want)))
			c.State(text)
		}
	}
}

func runC29(h *vh.H) {
	a := newAcceptor()
	var explore func(c *vh.C, q query, depth int)
	explore = func(c *vh.C, q query, depth int) {
		q.acceptAll(c, a)
		if depth > 0 {
			for _, n := range q.exts() {
				explore(c, n, depth-1)
			}
		}
	}
	for _, p := range c14Prefixes() {
		q := queryOf(p)
		h.Case(func() string { return fmt.Sprintf("exactly %q", q.render(false)) }, func(c *vh.C) { q.acceptAll(c, a); c.Trace() })
		for _, n := range q.exts() {
			h.Case(func() string { return fmt.Sprintf("from %q", n.render(false)) }, func(c *vh.C) { explore(c, n, 0); c.Trace() })
		}
	}
	var walk func(q query, depth int)
	walk = func(q query, depth int) {
		if h.Stop() {
			return
		}
		h.Case(func() string { return fmt.Sprintf("exactly %q", q.render(false)) }, func(c *vh.C) { q.acceptAll(c, a); c.Trace() })
		if depth > 0 {
			for _, n := range q.exts() {
				walk(n, depth-1)
			}
		}
	}
	walk(startQuery(), h.Pick(4, 5))
}
