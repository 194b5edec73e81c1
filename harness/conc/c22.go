package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif/vh"
	"verif/vsync"
)

// fill is a view that fills its box with a character.
type fill struct {
	ch  rune
	box term.PositionBox
}

func (f *fill) SetBox(b term.PositionBox) { f.box = b }
func (f *fill) FlushTo(s tcell.Screen) {
	vsync.Point()
	for x := 0; x < f.box.Cols; x++ {
		for y := 0; y < f.box.Rows; y++ {
			s.SetContent(f.box.StartCol+x, f.box.StartRow+y, f.ch, nil, 0)
		}
	}
}

var c22Ops = []string{"update to B", "update to C", "repaint", "key", "resize", "cancel", "update to nothing", "cursor"}

const (
	eUpdateB = iota
	eUpdateC
	eRepaint
	eKey
	eResize
	eCancel
	eNothing
	eCursor
)

func boundsC22(q bool) string {
	return fmt.Sprintf("every interleaving with <=%d preemptions of the event loop's start and run (with or without an initial view, with or without the terminal telling its size at first) with every pair of threads with 1 operation (quick: half of them with <=1), and <=%d with 2 and 1 operations, out of %d (%s), under the race detector",
		map[bool]int{true: 2, false: 3}[q], map[bool]int{true: 1, false: 2}[q], len(c22Ops), strings.Join(c22Ops, ", "))
}

func runC22(h *vh.H) {
	n := len(c22Ops)
	run := func(bound int, initial, tells bool, threads ...[]int) {
		h.Case(func() string {
			s := ""
			for _, t := range threads {
				var l []string
				for _, o := range t {
					l = append(l, c22Ops[o])
				}
				s += " [" + strings.Join(l, "; ") + "]"
			}
			return fmt.Sprintf("concurrent: initial view %v, size told %v, bound %d, threads%s", initial, tells, bound, s)
		}, func(c *vh.C) {
			explore(c, bound, fmt.Sprint(initial, tells, threads), func() world { return newLoopWorld(initial, tells, threads) })
		})
	}
	for _, initial := range []bool{false, true} {
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				bound := h.Pick(2, 3)
				if h.Quick() && initial == ((a+b)%2 == 0) {
					bound = 1
				}
				run(bound, initial, true, []int{a}, []int{b})
				run(h.Pick(1, 2), initial, false, []int{a}, []int{b})
			}
		}
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				for d := 0; d < n; d++ {
					if h.Quick() && (initial != (d%2 == 0) || d >= eNothing || a == b) {
						continue
					}
					run(h.Pick(1, 2), initial, true, []int{a, b}, []int{d})
				}
			}
		}
	}
}

type loopWorld struct {
	s       *screen
	r       *term.Runner
	ops     [][]int
	initial bool
	tells   bool // the terminal tells its size at first
	ctx     context.Context
	cancel  func()
	a, b, c *fill
	keys    string // handled
	typed   [4]string
	updates []update
	nup     int
	settled bool
	verdict string
	err     error
	ended   bool
	cancels bool
}

type update struct {
	v          *fill
	begin, end int64
}

func newLoopWorld(initial, tells bool, ops [][]int) *loopWorld {
	w := &loopWorld{s: newScreen(6, 4), ops: ops, initial: initial, tells: tells, updates: make([]update, 8)}
	w.a, w.b, w.c = &fill{ch: 'A'}, &fill{ch: 'B'}, &fill{ch: 'C'}
	w.ctx, w.cancel = context.WithCancel(context.Background())
	w.r = &term.Runner{
		MakeScreen: func() (tcell.Screen, error) { return w.s, nil },
		KeyHandler: func(e *tcell.EventKey) { w.keys += string(e.Rune()) },
	}
	if tells {
		w.s.evch <- tcell.NewEventResize(6, 4)
	}
	return w
}

// update requests a view, noting when.
//
//go:norace
func (w *loopWorld) update(v *fill) {
	u := &w.updates[w.nup]
	w.nup++
	u.v, u.begin = v, vsync.Stamp()
	w.r.RequestUpdate(v)
	u.end = vsync.Stamp()
}

func (w *loopWorld) threads() []func() {
	t := []func(){func() {
		if w.initial {
			w.err = w.r.Run(w.ctx, w.a)
		} else {
			w.err = w.r.Run(w.ctx, nil)
		}
		w.ended = true
	}}
	for k, ops := range w.ops {
		k, ops := k, ops
		t = append(t, func() {
			for i, op := range ops {
				switch op {
				case eUpdateB:
					w.update(w.b)
				case eUpdateC:
					w.update(w.c)
				case eNothing:
					w.r.RequestUpdate(nil)
				case eRepaint:
					w.r.RequestRepaint()
				case eKey:
					ch := rune('a' + 2*k + i)
					if w.s.PostEvent(runeKey(ch)) == nil {
						w.typed[k] += string(ch)
					}
				case eResize:
					w.s.resize(5+k, 3)
				case eCancel:
					vsync.Point()
					w.cancel()
				case eCursor:
					w.r.ShowCursor(k, 1)
				}
			}
		})
	}
	for _, ops := range w.ops {
		for _, op := range ops {
			w.cancels = w.cancels || op == eCancel
		}
	}
	return t
}

// idle is called when no thread can go on.
func (w *loopWorld) idle() bool {
	if w.settled {
		return false
	}
	w.settled = true
	if w.cancels {
		return false
	}
	w.verdict = w.look()
	w.cancel()
	return true
}

// look judges what's on the screen once everything is settled.
//
//go:norace
func (w *loopWorld) look() string {
	last := map[rune]bool{}
	for i, u := range w.updates[:w.nup] {
		latest := true
		for j, o := range w.updates[:w.nup] {
			if i != j && o.begin > u.end {
				latest = false
			}
		}
		if latest {
			last[u.v.ch] = true
		}
	}
	if w.nup == 0 {
		last[' '] = true
		if w.initial && (w.tells || w.resizes()) {
			last = map[rune]bool{'A': true}
		}
	}
	first := w.s.shown[0][0].ch
	if first == 0 {
		first = ' '
	}
	for y := 0; y < w.s.side; y++ {
		for x := 0; x < w.s.side; x++ {
			ch := w.s.shown[x][y].ch
			if ch == 0 {
				ch = ' '
			}
			if in := x < w.s.cols && y < w.s.rows; in && (!last[ch] || ch != first) {
				return fmt.Sprintf("column %d of row %d of %dx%d shows %q next to %q, want one of %v", x, y, w.s.cols, w.s.rows, ch, first, names(last))
			} else if !in && ch != ' ' {
				return fmt.Sprintf("%q left at column %d of row %d, outside of %dx%d", ch, x, y, w.s.cols, w.s.rows)
			}
		}
	}
	return ""
}

//go:norace
func (w *loopWorld) resizes() bool {
	for _, ops := range w.ops {
		for _, op := range ops {
			if op == eResize {
				return true
			}
		}
	}
	return false
}

func names(m map[rune]bool) string {
	s := ""
	for _, r := range " ABC" {
		if m[r] {
			s += string(r)
		}
	}
	return s
}

//go:norace
func (w *loopWorld) judge() string {
	if w.verdict != "" {
		return w.verdict
	}
	if !w.ended || w.err != nil {
		return fmt.Sprintf("Run ended: %v with %v", w.ended, w.err)
	}
	if w.s.inits != 1 || w.s.finis != 1 {
		return fmt.Sprintf("screen initialised %d times and finalised %d times", w.s.inits, w.s.finis)
	}
	for _, t := range w.typed {
		// in order, and all unless cancelled
		i := 0
		for _, k := range w.keys {
			if i < len(t) && rune(t[i]) == k {
				i++
			} else if strings.ContainsRune(t, k) {
				return fmt.Sprintf("keys %q handled, typed %q", w.keys, w.typed)
			}
		}
		if i < len(t) && !w.cancels {
			return fmt.Sprintf("keys %q handled, typed %q", w.keys, w.typed)
		}
	}
	return ""
}

//go:norace
func (w *loopWorld) observed() string {
	return fmt.Sprint(w.keys, w.s.row(0), w.s.cols, w.s.cursorOn, w.s.shows)
}

func (w *loopWorld) end() { w.cancel() }
