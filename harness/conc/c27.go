package main

import (
	"context"
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif/vh"
	"verif/vsync"
)

const (
	uA = iota
	uEnter
	uSmall
	uWide
	uWait5
	uWait10
)

var c27User = []string{"type a", "enter", "shrink the terminal", "widen the terminal", "5ms", "10ms"}

const (
	aB = iota
	aC
	aRepaint
	aWait10
	aCancel
)

var c27App = []string{"update to B", "update to C", "repaint", "10ms", "cancel"}

func boundsC27(q bool) string {
	return fmt.Sprintf("every interleaving with <=%d deviations from running each thread for as long as it can (one when more than two things happen) of the event loop, the prompt with go-prompt's own loops (in virtual time), a terminal on which <=%d of %d things happen (%s), and an application that does <=%d of %d things (%s), with the view updated upon entered lines or not, a line that stops, and initial input or not, under the race detector",
		map[bool]int{true: 1, false: 2}[q], map[bool]int{true: 2, false: 3}[q], len(c27User), strings.Join(c27User, ", "),
		map[bool]int{true: 1, false: 2}[q], len(c27App), strings.Join(c27App, ", "))
}

type displayCfg struct {
	initial string
	answer  string
	stop    string
	updates bool // upon lines
	docked  bool // before the start
}

func runC27(h *vh.H) {
	cfgs := []displayCfg{
		{docked: true},
		{docked: true, initial: "i", answer: "ok\n", updates: true},
		{docked: true, stop: "a"},
		{answer: "ok\n", updates: true, stop: ""},
	}
	wait := func(ix []int, waits ...int) bool {
		for _, w := range waits {
			if len(ix) > 0 && ix[len(ix)-1] == w {
				return true
			}
		}
		return false
	}
	vh.Seqs(len(c27User), 0, h.Pick(2, 3), func(user []int) {
		user = append([]int{}, user...)
		if wait(user, uWait5, uWait10) {
			return
		}
		vh.Seqs(len(c27App), 0, h.Pick(1, 2), func(app []int) {
			app = append([]int{}, app...)
			if wait(app, aWait10) {
				return
			}
			for ci, cfg := range cfgs {
				if h.Stop() {
					return
				}
				if h.Quick() && len(user) == 2 && len(app) == 1 && (user[0]+user[1]+app[0])%len(cfgs) != ci {
					continue
				}
				bound := h.Pick(1, 2)
				if n := len(user) + len(app); n > 4 {
					continue
				} else if n > 2 {
					bound = 1
				}
				h.Case(func() string {
					return fmt.Sprintf("%+v, bound %d, terminal: %s; application: %s", cfg, bound, names27(c27User, user), names27(c27App, app))
				}, func(c *vh.C) {
					exploreDelays(c, bound, fmt.Sprint(ci, user, app), func() world { return newDisplay(cfg, user, app) })
				})
				if n := len(user) + len(app); h.Quick() && n > 1 {
					continue
				}
				h.Case(func() string {
					return fmt.Sprintf("%+v, bound %d, newest first, terminal: %s; application: %s", cfg, bound, names27(c27User, user), names27(c27App, app))
				}, func(c *vh.C) {
					exploreReversed(c, bound, fmt.Sprint(ci, user, app), func() world { return newDisplay(cfg, user, app) })
				})
			}
		})
	})
}

func names27(names []string, ix []int) string {
	var l []string
	for _, i := range ix {
		l = append(l, names[i])
	}
	return "[" + strings.Join(l, ", ") + "]"
}

const dockRows = 9

// display is the whole display: an event loop with a prompt below another view.
type display struct {
	displayCfg
	user, app []int
	s         *screen
	r         *term.Runner
	v         *term.PromptView
	ctx       context.Context
	cancel    func()
	over      bool
	rerr      error
	perr      error
	rret      bool
	pret      bool
	handled   []string
	want      []string
	typed     string
	lost      bool // the terminal's queue was full
	shut      int
	upds      []update
	nup       int
	cancels   bool
	ticks     int
	stage     int
	verdict   string
}

func newDisplay(cfg displayCfg, user, app []int) *display {
	w := &display{displayCfg: cfg, user: user, app: app, s: newScreen(12, 11), upds: make([]update, 8)}
	w.ctx, w.cancel = context.WithCancel(context.Background())
	w.r = &term.Runner{MakeScreen: func() (tcell.Screen, error) { return w.s, nil }}
	w.v = newPromptView(w.r, &w.over, w.handle)
	w.r.KeyHandler = w.v.HandleKey
	w.s.evch <- tcell.NewEventResize(12, 11)
	for _, op := range app {
		w.cancels = w.cancels || op == aCancel
	}
	return w
}

func (w *display) view(ch rune) term.View {
	return &term.SplitView{Dock: term.PosBelow, DockSize: dockRows, Docked: w.v, Flexed: &fill{ch: ch}}
}

// update requests a view, noting when.
//
//go:norace
func (w *display) update(ch rune) {
	u := &w.upds[w.nup]
	w.nup++
	u.v, u.begin = &fill{ch: ch}, vsync.Stamp()
	w.r.RequestUpdate(w.view(ch))
	u.end = vsync.Stamp()
}

//go:norace
func (w *display) handle(in string) (*string, bool) {
	if w.over {
		return nil, false
	}
	w.handled = append(w.handled, in)
	if w.stop != "" && in == w.stop {
		return nil, true
	}
	if w.updates {
		w.update('Q')
	}
	if w.answer == "" {
		return nil, false
	}
	a := w.answer
	return &a, false
}

func (w *display) threads() []func() {
	var initial *string
	if w.initial != "" {
		initial = &w.initial
		w.want = append(w.want, w.initial)
	}
	return []func(){func() {
		var v term.View
		if w.docked {
			v = w.view('A')
		}
		w.rerr = w.r.Run(w.ctx, v)
		w.rret = true
	}, func() {
		if !w.docked {
			w.v.OnSetup = func() { w.update('S') }
		}
		w.perr = w.v.Run(w.ctx, initial, func() { w.shut++; w.cancel() })
		w.pret = true
	}, func() {
		// what's typed before the prompt is there is dropped
		time.Sleep(5 * time.Millisecond)
		for _, op := range w.user {
			switch op {
			case uA:
				w.key(runeKey('a'))
				w.typed += "a"
			case uEnter:
				w.key(specialKey(tcell.KeyEnter))
				w.want = append(w.want, w.typed)
				w.typed = ""
			case uSmall:
				w.s.resize(9, 10)
			case uWide:
				w.s.resize(16, 12)
			case uWait5:
				time.Sleep(5 * time.Millisecond)
			case uWait10:
				time.Sleep(10 * time.Millisecond)
			}
		}
	}, func() {
		for _, op := range w.app {
			switch op {
			case aB:
				w.update('B')
			case aC:
				w.update('C')
			case aRepaint:
				w.r.RequestRepaint()
			case aWait10:
				time.Sleep(10 * time.Millisecond)
			case aCancel:
				vsync.Point()
				w.cancel()
			}
		}
	}}
}

func (w *display) key(e *tcell.EventKey) {
	if w.s.PostEvent(e) != nil {
		w.lost = true
	}
}

// idle lets time pass, judges, and ends the display.
//
//go:norace
func (w *display) idle() bool {
	time.Sleep(5 * time.Millisecond)
	synctest.Wait()
	if w.ticks++; w.ticks < 10+8*len(w.want)+2*len(w.user)+2*len(w.app) {
		return true
	}
	w.ticks = 0
	if w.stage++; w.stage > 1 {
		return false
	}
	w.verdict = w.look()
	w.over = true
	w.cancel()
	if w.cancels {
		// the prompt may wait for a first box
		vsync.Spawn(func() { w.v.SetBox(boxA) })
	}
	return true
}

//go:norace
func (w *display) look() string {
	if w.lost {
		return ""
	}
	want := w.want
	for i, l := range want {
		if w.stop != "" && l == w.stop {
			want = want[:i+1]
			break
		}
	}
	if msg := sameLines(w.handled, want, !w.cancels); msg != "" {
		return msg
	}
	stopped := w.stop != "" && len(w.handled) > 0 && w.handled[len(w.handled)-1] == w.stop
	if n := map[bool]int{true: 1}[stopped]; w.shut != n {
		return fmt.Sprintf("shut down %d times, want %d; handled %q", w.shut, n, w.handled)
	}
	if ends := w.cancels || stopped; ends != w.rret || ends != w.pret || w.rerr != nil || w.perr != nil {
		return fmt.Sprintf("event loop returned: %v with %v; prompt returned: %v with %v", w.rret, w.rerr, w.pret, w.perr)
	} else if ends {
		if w.s.finis != 1 {
			return fmt.Sprintf("screen finalised %d times", w.s.finis)
		}
		return ""
	}
	last := map[rune]bool{}
	for i, u := range w.upds[:w.nup] {
		latest := true
		for j, o := range w.upds[:w.nup] {
			if i != j && o.begin > u.end {
				latest = false
			}
		}
		if latest {
			last[u.v.ch] = true
		}
	}
	if w.nup == 0 {
		last['A'] = true
	}
	first := w.s.shown[0][0].ch
	dock := w.s.rows - dockRows
	for y := 0; y < dock; y++ {
		for x := 0; x < w.s.cols; x++ {
			if ch := w.s.shown[x][y].ch; !last[ch] || ch != first {
				return fmt.Sprintf("column %d of row %d of %dx%d shows %q next to %q, want one of %v", x, y, w.s.cols, w.s.rows, ch, first, keys27(last))
			}
		}
	}
	return promptShown(w.s, term.PositionBox{StartRow: dock, Cols: w.s.cols, Rows: dockRows}, w.handled, w.answer, w.typed)
}

func keys27(m map[rune]bool) string {
	s := ""
	for _, r := range "ABCQS" {
		if m[r] {
			s += string(r)
		}
	}
	return s
}

//go:norace
func (w *display) judge() string {
	if !w.over {
		w.verdict = w.look()
		w.over = true
	}
	if w.verdict != "" {
		return w.verdict
	}
	if !w.rret || w.rerr != nil || !w.pret || w.perr != nil || w.s.finis != 1 {
		return fmt.Sprintf("event loop returned: %v with %v; prompt returned: %v with %v; screen finalised %d times", w.rret, w.rerr, w.pret, w.perr, w.s.finis)
	}
	return ""
}

//go:norace
func (w *display) observed() string {
	return fmt.Sprintf("%q %v %v %v %v %v", w.handled, w.s.cursor, w.rret, w.s.row(0), w.s.row(4), w.s.shows)
}

func (w *display) end() { w.cancel() }
