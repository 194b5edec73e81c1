package main

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"verif/vh"
)

// The same at the command's own prompt (see complete/c29.go): starts of queries,
// words to be completed and what stands after the cursor.
var (
	c29Starts   = []string{"", "m + ", "m+", "m*", "sum(m)-", "m>", "m>=", "m^", "m%", "-", "m/n - ", "m{", "m{a=", "m{a=\"x\",", "m{a=\"x\", instance=~", "m{a=\"日本\"}+", "m{a=\"日本\",", "rate(m[", "rate(m[1m:", "m offset ", "sum(m) by (", "sum(m+", "n / on(a) "}
	c29Partials = []string{"", "m", "n", "la", "s", "sum", "i", "a", `"`, `"x`, `"http://t`, `"http://t1:99/`, "5", "30", "zz"}
	c29Afters   = []string{"", ")", " + n"}
)

func boundsC29(bool) string {
	return fmt.Sprintf("in the whole program under a virtual clock: %d starts of queries x %d partial words x %d texts after the cursor, with every suggestion offered (thorough: up to 80; else up to 4, and the last) being accepted", len(c29Starts), len(c29Partials), len(c29Afters))
}

func runC29(h *vh.H) {
	for _, start := range c29Starts {
		for _, partial := range c29Partials {
			for _, after := range c29Afters {
				h.Case(func() string { return fmt.Sprintf("%q|%q", start+partial, after) }, func(c *vh.C) {
					// whatever is offered at the moment
					last := h.Pick(4, 80)
					for n := 1; n <= last; n++ {
						var fail string
						var more int
						done := false
						synctest.Test(theT, func(t *testing.T) {
							defer func() { done = true }()
							defer vh.Recover(&fail)
							fail, more = caseC29(c, start, partial, after, n)
						})
						if fail != "" {
							c.Failf("suggestion %d: %s", n, fail)
						}
						if !done {
							c.Failf("bubble ended early")
						}
						if more < n {
							break
						}
						if n == last-1 {
							n = max(n, more-1)
							last = n + 1
						}
					}
					c.Trace()
				})
			}
		}
	}
}

func caseC29(c *vh.C, start, partial, after string, n int) (string, int) {
	l := startLive(c26Cfg{2, 100 * time.Second, 200 * time.Second, "", 110, 40, -1})
	defer l.end()
	l.typed = ""
	l.entered()
	time.Sleep(80 * time.Millisecond)
	synctest.Wait()
	l.tick()
	wait := func() {
		time.Sleep(33 * time.Millisecond)
		synctest.Wait()
	}
	text := start + partial
	if text != "" {
		l.typeText(text)
	}
	if after != "" {
		l.typeText(after)
		wait()
		for range after {
			l.key(tcell.KeyLeft, 0)
			wait()
		}
	}
	wait()
	want := []string{}
	if text != "" {
		for _, m := range earley.NewPromQLCompleter(l.shadow.GetIndex()).GenerateSuggestions(text, len(text)) {
			if m.GetKind() == "time-unit" {
				want = append(want, text+m.GetValue())
			} else {
				want = append(want, start+m.GetValue())
			}
		}
	}
	for i := 0; i < n; i++ {
		l.key(tcell.KeyTab, 0)
		wait()
	}
	if n <= len(want) {
		l.typed = want[n-1] + after
		if after == "" {
			if msg := l.check(); msg != "" {
				return fmt.Sprintf("%q being selected: %s", l.typed, msg), 0
			}
		}
	}
	c.Trans(n + 1)
	typed := l.typed
	l.enter()
	if msg := l.check(); msg != "" {
		return fmt.Sprintf("want %q to be entered: %s", typed, msg), 0
	}
	c.State(typed)
	c.Outcome(fmt.Sprint(len(want), strings.HasPrefix(typed, text)))
	return "", len(want)
}
