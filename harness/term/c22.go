package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif/vh"
)

// drawing is a view that fills (a part of) its box with its current character.
type drawing struct {
	mu   sync.Mutex
	id   rune
	half bool // only the left half
	box  term.PositionBox
	run  *loopRun
}

func (d *drawing) SetBox(b term.PositionBox) {
	d.run.point("SetBox")
	d.mu.Lock()
	defer d.mu.Unlock()
	d.box = b
}

func (d *drawing) FlushTo(s tcell.Screen) {
	d.run.point("FlushTo")
	d.mu.Lock()
	defer d.mu.Unlock()
	for x, y := range d.covers(d.box) {
		s.SetContent(x, y, d.id, nil, tcell.StyleDefault)
	}
}

func (d *drawing) covers(b term.PositionBox) func(yield func(x, y int) bool) {
	w := b.Cols
	if d.half {
		w /= 2
	}
	return func(yield func(x, y int) bool) {
		for x := 0; x < w; x++ {
			for y := 0; y < b.Rows; y++ {
				if !yield(b.StartCol+x, b.StartRow+y) {
					return
				}
			}
		}
	}
}

// loopRun is one run of an event loop.
type loopRun struct {
	c       *vh.C
	s       *fakeScreen
	r       *term.Runner
	cancel  func()
	done    chan struct{}
	err     error
	views   []*drawing
	mu      sync.Mutex
	current *drawing // the view requested last
	keys    []rune   // keys the handler has got
	typed   []rune   // keys the screen's queue has taken
	nextKey rune
	nextVer rune

	points   int
	injectAt int // perform inject at this point (-1: never)
	inject   func()
	wg       sync.WaitGroup
}

// point is called from within callbacks of the event loop.
func (l *loopRun) point(string) {
	l.mu.Lock()
	n := l.points
	l.points++
	l.mu.Unlock()
	if n != l.injectAt {
		return
	}
	// somebody else does something just now
	d := make(chan struct{})
	l.wg.Add(1)
	go func() {
		defer l.wg.Done()
		defer close(d)
		l.inject()
	}()
	select {
	case <-d:
	case <-time.After(100 * time.Millisecond):
		// waits for what the event loop is doing now
	}
}

func (l *loopRun) update(v *drawing) {
	l.mu.Lock()
	l.current = v
	l.mu.Unlock()
	if v == nil {
		l.r.RequestUpdate(nil)
	} else {
		l.r.RequestUpdate(v)
	}
}

// repaint changes what the views show, and requests that this be drawn.
func (l *loopRun) repaint() {
	l.mu.Lock()
	l.nextVer++
	ver := l.nextVer
	l.mu.Unlock()
	for i, v := range l.views {
		v.mu.Lock()
		v.id = rune(0x4000 + 256*i + int(ver))
		v.mu.Unlock()
	}
	l.r.RequestRepaint()
}

func (l *loopRun) key(kind rune) {
	l.mu.Lock()
	l.nextKey++
	r := 0x100000 + kind*0x1000 + l.nextKey
	l.mu.Unlock()
	if l.s.PostEvent(tcell.NewEventKey(tcell.KeyRune, r, 0)) == nil {
		l.mu.Lock()
		l.typed = append(l.typed, r)
		l.mu.Unlock()
	}
}

func (l *loopRun) handleKey(e *tcell.EventKey) {
	l.point("key")
	l.mu.Lock()
	l.keys = append(l.keys, e.Rune())
	l.mu.Unlock()
	switch (e.Rune() - 0x100000) / 0x1000 {
	case 1:
		l.repaint()
	case 2:
		l.update(l.views[2])
	}
}

func (l *loopRun) resize(cols, rows int) {
	l.s.mu.Lock()
	l.s.cols, l.s.rows = cols, rows
	l.s.mu.Unlock()
	l.s.PostEvent(tcell.NewEventResize(cols, rows))
}

func (l *loopRun) stop() {
	l.cancel()
	for i := 0; i < 200; i++ { // give the loop's owner time to notice
		l.s.mu.Lock()
		n := l.s.finis
		l.s.mu.Unlock()
		if n > 0 {
			return
		}
		time.Sleep(time.Duration(i) * time.Microsecond)
	}
}

type loopOp struct {
	name string
	do   func(l *loopRun)
}

var loopOps = []loopOp{
	{"key", func(l *loopRun) { l.key(0) }},
	{"key that repaints", func(l *loopRun) { l.key(1) }},
	{"key that shows view 2", func(l *loopRun) { l.key(2) }},
	{"show view 0", func(l *loopRun) { l.update(l.views[0]) }},
	{"show view 1", func(l *loopRun) { l.update(l.views[1]) }},
	{"repaint", func(l *loopRun) { l.repaint() }},
	{"resize to 3x2", func(l *loopRun) { l.resize(3, 2) }},
	{"resize to 4x5", func(l *loopRun) { l.resize(4, 5) }},
	{"resize to 5x3", func(l *loopRun) { l.resize(5, 3) }},
	{"12 keys", func(l *loopRun) {
		for i := 0; i < 12; i++ {
			l.key(0)
		}
	}},
	{"handle one event", func(l *loopRun) { l.s.step() }},
	{"handle all events", func(l *loopRun) { l.s.settle() }},
	{"cursor", func(l *loopRun) { l.r.ShowCursor(1, 1); l.r.HideCursor() }},
}

var injectOps = []loopOp{
	loopOps[0], loopOps[4], loopOps[5], loopOps[6], loopOps[7], loopOps[9],
	{"cancel", func(l *loopRun) { l.stop() }},
}

// before are things done before the loop runs.
var before = []loopOp{
	{"nothing", func(l *loopRun) {}},
	{"show view 1", func(l *loopRun) { l.update(l.views[1]) }},
	{"repaint", func(l *loopRun) { l.repaint() }},
	{"show view 0, show view 1, cursor", func(l *loopRun) {
		l.update(l.views[0])
		l.update(l.views[1])
		l.r.ShowCursor(0, 0)
		l.r.HideCursor()
	}},
}

func newLoop(c *vh.C, initial int) *loopRun {
	l := &loopRun{c: c, s: newScreen(4, 3), injectAt: -1, done: make(chan struct{})}
	for i := 0; i < 3; i++ {
		l.views = append(l.views, &drawing{id: rune('A' + i), half: i == 1, run: l})
	}
	l.s.hook = l.point
	l.s.onInit = func(s *fakeScreen) { s.PostEvent(tcell.NewEventResize(s.cols, s.rows)) }
	l.r = &term.Runner{KeyHandler: l.handleKey, MakeScreen: func() (tcell.Screen, error) { return l.s, nil }}
	if initial >= 0 {
		l.current = l.views[initial]
	}
	return l
}

func (l *loopRun) start() {
	ctx, cancel := context.WithCancel(context.Background())
	l.cancel = cancel
	var v term.View
	if l.current != nil {
		v = l.current
	}
	l.startWith(ctx, v)
}

func (l *loopRun) startWith(ctx context.Context, v term.View) {
	go func() {
		defer close(l.done)
		l.err = l.r.Run(ctx, v)
	}()
}

// settled checks the screen after all events have been handled.
func (l *loopRun) settled() {
	l.mu.Lock()
	defer l.mu.Unlock()
	if string(l.keys) != string(l.typed) {
		l.c.Failf("the key handler got %v, but typed was %v", keyNos(l.keys), keyNos(l.typed))
	}
	v := l.current
	if v == nil {
		if len(l.s.shown) != 0 {
			l.c.Failf("something is shown without any view: %v", l.s.shown)
		}
		return
	}
	box := term.PositionBox{Cols: l.s.cols, Rows: l.s.rows}
	v.mu.Lock()
	defer v.mu.Unlock()
	want := map[[2]int]rune{}
	for x, y := range v.covers(box) {
		want[[2]int{x, y}] = v.id
	}
	for p, cell := range l.s.shown {
		if r, ok := want[p]; !ok && cell.ch != ' ' || ok && r != cell.ch {
			l.c.Failf("column %d of row %d shows %q, want %q (view of %dx%d)", p[0], p[1], cell.ch, r, box.Cols, box.Rows)
		}
	}
	for p, r := range want {
		if cell, ok := l.s.shown[p]; !ok {
			l.c.Failf("column %d of row %d shows nothing, want %q (view of %dx%d)", p[0], p[1], r, box.Cols, box.Rows)
		} else if cell.ch != r {
			l.c.Failf("column %d of row %d shows %q, want %q", p[0], p[1], cell.ch, r)
		}
	}
}

func keyNos(ks []rune) []int {
	out := make([]int, len(ks))
	for i, k := range ks {
		out[i] = int(k & 0xfff)
	}
	return out
}

// finish stops the loop and checks how it ends.
func (l *loopRun) finish() {
	l.cancel()
	<-l.done
	l.wg.Wait()
	if l.err != nil {
		l.c.Failf("Run returned %v after having been cancelled", l.err)
	}
	if l.s.finis != 1 {
		l.c.Failf("the screen was finalized %d times", l.s.finis)
	}
	l.mu.Lock()
	if len(l.keys) > len(l.typed) || string(l.keys) != string(l.typed[:len(l.keys)]) {
		l.c.Failf("the key handler got %v, but typed was %v", keyNos(l.keys), keyNos(l.typed))
	}
	l.mu.Unlock()
	shows := l.s.shows
	// late requests do nothing
	l.repaint()
	l.update(l.views[0])
	l.r.ShowCursor(0, 0)
	l.r.HideCursor()
	if l.s.shows != shows {
		l.c.Failf("drew after Run has returned")
	}
	l.c.Trace()
}

func boundsC22(q bool) string {
	return fmt.Sprintf("every sequence of <=%d operations out of %d (keys whose handlers request things, view updates, repaints of changed contents, resizes, bursts that overflow the event queue, handling one or all events), with 4 prologues before the loop runs and with or without an initial view, then cancelled with and without handling the rest; every sequence of <=%d operations with one of %d operations (incl. cancelling) injected at every callback of the loop (screen size, clearing, layout, drawing, showing, key handler); every pair of operations repeated to 7 and 26 (thorough: 90, 300); failing screens",
		map[bool]int{true: 4, false: 5}[q], len(loopOps), map[bool]int{true: 2, false: 3}[q], len(injectOps))
}

func runC22(h *vh.H) {
	names := func(ix []int) string {
		var s []string
		for _, i := range ix {
			s = append(s, loopOps[i].name)
		}
		return strings.Join(s, ", ")
	}
	for _, fail := range []string{"make", "init", "cancelled"} {
		h.Case(func() string { return "screen: " + fail }, func(c *vh.C) {
			l := newLoop(c, 0)
			boom := errors.New("boom")
			ctx, cancel := context.WithCancel(context.Background())
			l.cancel = cancel
			switch fail {
			case "make":
				l.r.MakeScreen = func() (tcell.Screen, error) { return nil, boom }
			case "init":
				l.s.initErr = boom
			case "cancelled":
				cancel()
				l.startWith(ctx, l.views[0])
				l.finish()
				return
			}
			l.startWith(ctx, l.views[0])
			<-l.done
			if !errors.Is(l.err, boom) {
				c.Failf("Run returned %v, want the screen's error", l.err)
			}
			cancel()
			c.Trace()
		})
	}
	run := func(ix []int) {
		if h.Stop() {
			return
		}
		ix = append([]int{}, ix...)
		for init := -1; init <= 0; init++ {
			for b := range before {
				if len(ix) > 3 && b != 0 && b != 3 {
					continue
				}
				for _, rest := range []bool{true, false} {
					h.Case(func() string {
						return fmt.Sprintf("initial view %d, before: %s; %s; handling the rest: %v; cancel", init, before[b].name, names(ix), rest)
					}, func(c *vh.C) {
						l := newLoop(c, init)
						first := l.current
						before[b].do(l)
						ctx, cancel := context.WithCancel(context.Background())
						l.cancel = cancel
						if first != nil {
							l.startWith(ctx, first)
						} else {
							l.startWith(ctx, nil)
						}
						l.s.waitPoll()
						for _, i := range ix {
							loopOps[i].do(l)
						}
						c.Trans(len(ix))
						if rest {
							l.s.settle()
							l.settled()
						}
						l.finish()
						c.State(fmt.Sprint(l.s.shown, len(l.keys)))
					})
				}
			}
		}
	}
	vh.Seqs(len(loopOps), 0, h.Pick(4, 5), run)
	lengths := []int{7, 26}
	if !h.Quick() {
		lengths = []int{7, 26, 90, 300}
	}
	vh.Pumped(len(loopOps), lengths, run)
	vh.Seqs(len(loopOps), 1, h.Pick(2, 3), func(ix []int) {
		if h.Stop() {
			return
		}
		for _, i := range ix {
			if loopOps[i].name == "cursor" {
				return
			}
		}
		for _, inj := range injectOps {
			// the number of callbacks is bounded by what the sequence can cause
			for at := 0; at < 6+8*len(ix); at++ {
				h.Case(func() string {
					return fmt.Sprintf("%s; meanwhile, at callback %d: %s", names(ix), at, inj.name)
				}, func(c *vh.C) {
					l := newLoop(c, 0)
					l.injectAt = at
					l.inject = func() { inj.do(l) }
					l.start()
					l.s.waitPoll()
					for _, i := range ix {
						loopOps[i].do(l)
					}
					l.s.settle()
					l.wg.Wait()
					l.s.settle()
					c.Trans(len(ix) + 1)
					if l.points > at && inj.name == "cancel" {
						<-l.done
					} else {
						l.settled()
					}
					l.finish()
				})
			}
		}
	})
}
