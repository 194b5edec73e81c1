package main

import (
	"context"
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif/vh"
	"verif/vsync"
)

const (
	pTypeA = iota
	pTypeB
	pEnter
	pMove
	pResize
	pDraw
	pWait5
	pWait10
	pCancel
)

var c23Ops = []string{"type a", "type b", "enter", "move", "resize", "draw", "5ms", "10ms", "cancel"}

func boundsC23(q bool) string {
	return fmt.Sprintf("every interleaving with <=%d preemptions of Run (with its own loops: go-prompt's reader and its main loop, in virtual time), an event loop with <=%d operations out of %d (%s) (at most one wait, and not last; quick: exactly one in sequences of 3) in between a first box, key and draw, possibly before the prompt is set up, and a final draw, and a second thread that cancels or not, with or without initial input, answers and a stop line, under the race detector",
		map[bool]int{true: 1, false: 2}[q], map[bool]int{true: 3, false: 4}[q], len(c23Ops)-1, strings.Join(c23Ops[:len(c23Ops)-1], ", "))
}

type promptCfg struct {
	initial string
	answer  string
	stop    string
	cancel  int // at this many ms, -1 never
}

func runC23(h *vh.H) {
	cfgs := []promptCfg{
		{cancel: -1},
		{cancel: -1, initial: "i", answer: "ok\n"},
		{cancel: -1, stop: "a"},
		{cancel: 5},
		{cancel: 15, initial: "i"},
	}
	vh.Seqs(pCancel, 0, h.Pick(3, 4), func(ix []int) {
		ix = append([]int{}, ix...)
		waits := 0
		for i, op := range ix {
			if op == pWait5 || op == pWait10 {
				waits++
				if i == len(ix)-1 {
					return // what follows waits anyway
				}
			}
		}
		if h.Quick() && len(ix) == 3 && (waits != 1 || ix[0] == ix[1] || ix[1] == ix[2]) || waits > 1 {
			return
		}
		for ci, cfg := range cfgs {
			if h.Quick() && (len(ix) == 3 && ci != (ix[0]+ix[1]+ix[2])%5 || len(ix) == 2 && (ci+ix[0]+ix[1])%2 == 1) || h.Stop() {
				continue
			}
			bound := h.Pick(1, 2)
			h.Case(func() string {
				var l []string
				for _, i := range ix {
					l = append(l, c23Ops[i])
				}
				return fmt.Sprintf("concurrent: %+v, bound %d, event loop: %s", cfg, bound, strings.Join(l, ", "))
			}, func(c *vh.C) {
				explore(c, bound, fmt.Sprint(ci, ix), func() world { return newPromptWorld(cfg, ix) })
			})
		}
	})
}

// promptWorld is a running PromptView, an event loop, and somebody who cancels.
type promptWorld struct {
	promptCfg
	ops     []int
	s       *screen
	v       *term.PromptView
	ctx     context.Context
	cancelf func()
	over    bool
	err     error
	ret     bool
	boxes   []term.PositionBox
	handled []string
	want    []string
	typed   string
	shut    int
	ticks   int
	stage   int
	verdict string
}

var boxA = term.PositionBox{StartCol: 1, StartRow: 1, Cols: 14, Rows: 10}
var boxB = term.PositionBox{StartCol: 3, StartRow: 0, Cols: 14, Rows: 10}
var boxC = term.PositionBox{StartCol: 1, StartRow: 1, Cols: 12, Rows: 8}

func newPromptWorld(cfg promptCfg, ops []int) *promptWorld {
	w := &promptWorld{promptCfg: cfg, ops: ops, s: newScreen(20, 12)}
	w.ctx, w.cancelf = context.WithCancel(context.Background())
	w.v = newPromptView(w.s, &w.over, w.handle)
	return w
}

// screenIsh is what a PromptView needs of a screen.
type screenIsh interface {
	ShowCursor(int, int)
	HideCursor()
	RequestRepaint()
}

// newPromptView makes a PromptView with go-prompt's own loops.
func newPromptView(s screenIsh, over *bool, handle func(string) (*string, bool)) *term.PromptView {
	return &term.PromptView{
		Screen: s,
		SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt {
			p := newPrompt(noSuggestions, append([]prompt.Option{prompt.OptionPrefix("> ")}, opts...)...)
			setf(p, "in", &phased{ConsoleParser: getf(p, "in").(prompt.ConsoleParser), over: over})
			return p
		},
		HandleInput: handle,
	}
}

//go:norace
func (w *promptWorld) handle(in string) (*string, bool) {
	if w.over {
		return nil, false
	}
	w.handled = append(w.handled, in)
	if w.answer == "" {
		return nil, w.stop != "" && in == w.stop
	}
	a := w.answer
	return &a, w.stop != "" && in == w.stop
}

func (w *promptWorld) threads() []func() {
	var initial *string
	if w.initial != "" {
		initial = &w.initial
		w.want = append(w.want, w.initial)
	}
	ready := make(chan struct{})
	w.v.OnSetup = func() { close(ready) }
	t := []func(){func() {
		w.err = w.v.Run(w.ctx, initial, func() { w.shut++; w.cancelf() })
		w.ret = true
	}, func() {
		// the event loop may well be faster than the prompt
		w.v.SetBox(boxA)
		w.v.HandleKey(specialKey(tcell.KeyPrint)) // means nothing to the prompt
		w.v.FlushTo(w.s)
		<-ready
		for _, op := range w.ops {
			switch op {
			case pTypeA, pTypeB:
				r := rune('a' + op - pTypeA)
				w.v.HandleKey(runeKey(r))
				w.typed += string(r)
			case pEnter:
				w.v.HandleKey(specialKey(tcell.KeyEnter))
				w.want = append(w.want, w.typed)
				w.typed = ""
			case pMove:
				w.v.SetBox(boxB)
			case pResize:
				w.v.SetBox(boxC)
			case pDraw:
				w.v.FlushTo(w.s)
			case pWait5:
				time.Sleep(5 * time.Millisecond)
			case pWait10:
				time.Sleep(10 * time.Millisecond)
			}
		}
	}}
	if w.cancel >= 0 {
		t = append(t, func() {
			time.Sleep(time.Duration(w.cancel) * time.Millisecond)
			vsync.Point()
			w.cancelf()
		})
	}
	return t
}

// idle lets time pass, has the view drawn in the end, and ends it.
//
//go:norace
func (w *promptWorld) idle() bool {
	time.Sleep(5 * time.Millisecond)
	synctest.Wait()
	if w.ticks++; w.ticks < w.limit() {
		return true
	}
	w.ticks = 0
	w.stage++
	switch w.stage {
	case 1:
		vsync.Spawn(func() {
			w.s.Clear()
			w.v.FlushTo(w.s)
			w.s.Show()
		})
	case 2:
		w.verdict = w.look()
		w.over = true
		w.cancelf()
	default:
		return false
	}
	return true
}

// limit is how many steps of 5ms it takes to settle.
//
//go:norace
func (w *promptWorld) limit() int {
	if w.stage == 1 {
		return 1
	}
	n := 8 + 8*len(w.want)
	for _, op := range w.ops {
		switch op {
		case pWait5:
			n++
		case pWait10:
			n += 2
		}
	}
	return n
}

// look judges what happened once everything is settled.
//
//go:norace
func (w *promptWorld) look() string {
	want := w.want
	for i, l := range want {
		if w.stop != "" && l == w.stop {
			want = want[:i+1]
			break
		}
	}
	cancelled := w.cancel >= 0
	if msg := sameLines(w.handled, want, !cancelled); msg != "" {
		return msg
	}
	stopped := w.stop != "" && len(w.handled) > 0 && w.handled[len(w.handled)-1] == w.stop
	if n := map[bool]int{true: 1}[stopped]; w.shut != n {
		return fmt.Sprintf("shut down %d times, want %d; handled %q", w.shut, n, w.handled)
	}
	if (cancelled || stopped) != w.ret {
		return fmt.Sprintf("Run returned: %v", w.ret)
	}
	if w.err != nil {
		return fmt.Sprintf("Run returned %v", w.err)
	}
	if cancelled || stopped {
		return ""
	}
	box := boxA
	for _, op := range w.ops {
		switch op {
		case pMove:
			box = boxB
		case pResize:
			box = boxC
		}
	}
	return promptShown(w.s, box, w.handled, w.answer, w.typed)
}

func sameLines(handled, want []string, complete bool) string {
	if len(handled) > len(want) || complete && len(handled) < len(want) {
		return fmt.Sprintf("handled %q, want %q", handled, want)
	}
	for i, l := range handled {
		if l != want[i] {
			return fmt.Sprintf("handled %q, want %q", handled, want)
		}
	}
	return ""
}

// promptShown checks what the screen shows of a prompt in the given box, when
// all of it fits, and nothing but '.' or nothing around it.
//
//go:norace
func promptShown(s *screen, box term.PositionBox, handled []string, answer, typed string) string {
	var lines []string
	for _, l := range handled {
		lines = append(lines, "> "+l)
		if answer != "" {
			lines = append(lines, strings.TrimSuffix(answer, "\n"))
		}
	}
	lines = append(lines, "> "+typed)
	for y := 0; y < box.Rows; y++ {
		want := ""
		if y < len(lines) {
			want = lines[y]
		}
		got := []rune(s.row(y + box.StartRow))[box.StartCol:]
		if len(got) > box.Cols {
			got = got[:box.Cols]
		}
		if strings.TrimRight(string(got), " ") != strings.TrimRight(want, " ") {
			return fmt.Sprintf("row %d of the prompt shows %q, want %q", y, string(got), want)
		}
	}
	at := [2]int{box.StartCol + len(lines[len(lines)-1]), box.StartRow + len(lines) - 1}
	if !s.cursorOn || s.cursor != at {
		return fmt.Sprintf("cursor shown: %v at %v, want %v", s.cursorOn, s.cursor, at)
	}
	return ""
}

//go:norace
func (w *promptWorld) judge() string {
	if w.verdict != "" {
		return w.verdict
	}
	if w.stage < 2 && !w.over {
		// everything ended early: by cancelling, and while it waited for nothing
		w.verdict = w.look()
		w.over = true
		return w.verdict
	}
	if !w.ret || w.err != nil {
		return fmt.Sprintf("Run returned: %v with %v", w.ret, w.err)
	}
	return ""
}

//go:norace
func (w *promptWorld) observed() string {
	return fmt.Sprintf("%q %v %v %v", w.handled, w.s.cursor, w.ret, w.s.row(1))
}

func (w *promptWorld) end() { w.cancelf() }
