package main

import (
	"context"
	"fmt"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif/vh"
)

// refWriter lets a line editor draw on the reference terminal.  Where the cursor
// is while it's drawing (or upon having drawn no more than an error message)
// isn't specified.
type refWriter struct {
	t     *refTerm
	shown bool
	at    [2]int // cursor's place when it was shown
}

func (w *refWriter) WriteRaw(b []byte) {
	if string(b) != "\n" {
		panic("raw write")
	}
	w.t.newline()
}
func (w *refWriter) Write([]byte)       { panic("write") }
func (w *refWriter) WriteRawStr(string) { panic("raw write") }
func (w *refWriter) WriteStr(s string)  { w.t.write(s) }
func (w *refWriter) Flush() error       { return nil }
func (w *refWriter) EraseScreen() {
	for y := 0; y < w.t.rows; y++ {
		w.t.clear(y, 0, w.t.cols)
	}
}
func (w *refWriter) EraseUp() {
	for y := 0; y < w.t.row; y++ {
		w.t.clear(y, 0, w.t.cols)
	}
	w.t.clear(w.t.row, 0, w.t.col+1)
}
func (w *refWriter) EraseDown() {
	for y := w.t.row + 1; y < w.t.rows; y++ {
		w.t.clear(y, 0, w.t.cols)
	}
	w.t.clear(w.t.row, w.t.col, w.t.cols)
}
func (w *refWriter) EraseStartOfLine()       { w.t.clear(w.t.row, 0, w.t.col+1) }
func (w *refWriter) EraseEndOfLine()         { w.t.clear(w.t.row, w.t.col, w.t.cols) }
func (w *refWriter) EraseLine()              { w.t.clear(w.t.row, 0, w.t.cols) }
func (w *refWriter) ShowCursor()             { w.shown, w.at = true, [2]int{w.t.col, w.t.row} }
func (w *refWriter) HideCursor()             { w.shown = false }
func (w *refWriter) CursorGoTo(row, col int) { w.t.row, w.t.col = row, col; w.t.clamp() }
func (w *refWriter) CursorUp(n int)          { w.t.row -= n; w.t.clamp() }
func (w *refWriter) CursorDown(n int)        { w.t.row += n; w.t.clamp() }
func (w *refWriter) CursorForward(n int)     { w.t.forward(n) }
func (w *refWriter) CursorBackward(n int) {
	if n < 0 {
		w.t.forward(-n)
		return
	}
	w.t.col -= n
	w.t.clamp()
}
func (w *refWriter) AskForCPR()    { panic("not supported") }
func (w *refWriter) SaveCursor()   { panic("not supported") }
func (w *refWriter) UnSaveCursor() { panic("not supported") }
func (w *refWriter) ScrollDown() {
	if w.t.row < w.t.rows-1 {
		w.t.row++
	} else {
		w.t.shiftUp()
	}
}
func (w *refWriter) ScrollUp() {
	if w.t.row > 0 {
		w.t.row--
	} else {
		w.t.shiftDown()
	}
}
func (w *refWriter) SetTitle(string) {}
func (w *refWriter) ClearTitle()     {}

// colours are the prompt's colours by name.
var colours = map[prompt.Color]tcell.Color{
	prompt.Black: tcell.ColorBlack, prompt.DarkRed: tcell.ColorMaroon, prompt.DarkGreen: tcell.ColorGreen,
	prompt.Brown: tcell.ColorOlive, prompt.DarkBlue: tcell.ColorNavy, prompt.Purple: tcell.ColorPurple,
	prompt.Cyan: tcell.ColorTeal, prompt.LightGray: tcell.ColorSilver, prompt.DarkGray: tcell.ColorGray,
	prompt.Red: tcell.ColorRed, prompt.Green: tcell.ColorLime, prompt.Yellow: tcell.ColorYellow,
	prompt.Blue: tcell.ColorBlue, prompt.Fuchsia: tcell.ColorFuchsia, prompt.Turquoise: tcell.ColorAqua,
	prompt.White: tcell.ColorWhite,
}

func (w *refWriter) SetColor(fg, bg prompt.Color, bold bool) { w.t.sty = styleOf(fg, bg, bold) }

func styleOf(fg, bg prompt.Color, bold bool) tcell.Style {
	st := tcell.StyleDefault.Bold(bold)
	if c, ok := colours[fg]; ok {
		st = st.Foreground(c)
	}
	if c, ok := colours[bg]; ok {
		st = st.Background(c)
	}
	return st
}

// plainParser hands out what's put into it, a key at a time.
type plainParser struct {
	keys       [][]byte
	cols, rows int
}

func (*plainParser) Setup() error    { return nil }
func (*plainParser) TearDown() error { return nil }
func (p *plainParser) GetWinSize() *prompt.WinSize {
	return &prompt.WinSize{Row: uint16(p.rows), Col: uint16(p.cols)}
}
func (p *plainParser) Read() ([]byte, error) {
	if len(p.keys) == 0 {
		return nil, syscall.EWOULDBLOCK
	}
	k := p.keys[0]
	p.keys = p.keys[1:]
	return k, nil
}

// editCfg is how a prompt's line editor is set up.
type editCfg struct {
	cols, rows int
	suggest    int
	answer     string
	prefix     string
	burst      bool
	initial    *string
}

func (e editCfg) String() string {
	s := fmt.Sprintf("box of %dx%d, prompt %q, %d suggestions, answer %q, keys one at a time", e.cols, e.rows, e.prefix, e.suggest, e.answer)
	if e.burst {
		s = strings.TrimSuffix(s, "one at a time") + "all at once"
	}
	if e.initial != nil {
		s += fmt.Sprintf(", initial input %q", *e.initial)
	}
	return s
}

func (e editCfg) completer(d prompt.Document) []prompt.Suggest {
	var out []prompt.Suggest
	w := d.GetWordBeforeCursor()
	for i := 0; i < e.suggest && w != ""; i++ {
		out = append(out, prompt.Suggest{Text: fmt.Sprintf("%s世%d", w, i), Description: strings.Repeat("d", i)})
	}
	return out
}

// editors are a prompt widget and a line editor on a terminal of its own.
type editors struct {
	editCfg
	s      *fakeScreen
	v      *term.PromptView
	box    term.PositionBox
	lines  [2][]string
	in     *plainParser
	out    *refWriter
	ended  bool
	cancel func()
}

func startEditors(cfg editCfg) *editors {
	e := &editors{editCfg: cfg, s: newScreen(200, 200), in: &plainParser{}, out: &refWriter{t: newRef(cfg.cols, cfg.rows)}}
	ctx, cancel := context.WithCancel(context.Background())
	e.cancel = cancel
	e.v = &term.PromptView{
		Screen: e.s,
		SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt {
			pr := newPrompt(cfg.completer, append([]prompt.Option{prompt.OptionPrefix(cfg.prefix)}, opts...)...)
			setf(pr, "in", &phased{ConsoleParser: getf(pr, "in").(prompt.ConsoleParser)})
			return pr
		},
		HandleInput: func(in string) (*string, bool) {
			if e.ended {
				return nil, false
			}
			e.lines[0] = append(e.lines[0], in)
			if cfg.answer == "" {
				return nil, false
			}
			a := cfg.answer
			return &a, false
		},
	}
	e.setBox(term.PositionBox{StartCol: 3, StartRow: 5, Cols: cfg.cols, Rows: cfg.rows})
	go e.v.Run(ctx, cfg.initial, func() {})
	opts := []prompt.Option{prompt.OptionPrefix(cfg.prefix), prompt.OptionParser(e.in), prompt.OptionWriter(e.out)}
	if cfg.initial != nil {
		opts = append(opts, prompt.OptionInitialBufferText(*cfg.initial))
		e.in.keys = append(e.in.keys, []byte{'\n'})
	}
	pr := newPrompt(cfg.completer, opts...)
	setf(pr, "in", &phased{ConsoleParser: e.in})
	go func() {
		for !e.ended {
			in := pr.Input()
			if e.ended {
				return
			}
			e.lines[1] = append(e.lines[1], in)
			e.out.WriteStr(cfg.answer)
		}
	}()
	e.settle(1)
	return e
}

func (e *editors) setBox(b term.PositionBox) {
	e.v.SetBox(b)
	e.box = b
	e.in.cols, e.in.rows = b.Cols, b.Rows
	inPlace := e.out.at == [2]int{e.out.t.col, e.out.t.row}
	e.out.t.resize(b.Cols, b.Rows)
	if inPlace {
		e.out.at = [2]int{e.out.t.col, e.out.t.row}
	}
}

// settle lets the two handle a number of keys.
func (e *editors) settle(keys int) {
	time.Sleep(time.Duration(35+12*keys) * time.Millisecond)
	synctest.Wait()
}

// end lets all goroutines finish.
func (e *editors) end() {
	e.ended = true
	e.cancel()
	e.v.HandleKey(tcell.NewEventKey(tcell.KeyEnter, 0, 0))
	e.in.keys = append(e.in.keys, []byte{'\n'})
	time.Sleep(time.Second)
	synctest.Wait()
}

// compare compares what can be seen of the two, and the lines entered.
func (e *editors) compare() string {
	if a, b := fmt.Sprintf("%q", e.lines[0]), fmt.Sprintf("%q", e.lines[1]); a != b {
		return fmt.Sprintf("the lines entered are %s, want %s", a, b)
	}
	e.s.cells = map[[2]int]cellv{}
	e.s.sets = e.s.sets[:0]
	e.v.FlushTo(e.s)
	t := e.out.t
	dump := func() string {
		var sb strings.Builder
		for y := 0; y < t.rows; y++ {
			for _, who := range []string{"shown", "want"} {
				var l strings.Builder
				for x := 0; x < t.cols; x++ {
					c, ok := e.s.cells[[2]int{x + e.box.StartCol, y + e.box.StartRow}]
					if !ok {
						c = blank
					}
					if who == "want" {
						c = t.at(x, y).cellv
					}
					if !t.at(x, y).any {
						l.WriteString(string(c.ch) + c.comb)
					}
				}
				if s := strings.TrimRight(l.String(), " "); s != "" {
					fmt.Fprintf(&sb, "; row %d %s: %q", y, who, s)
				}
			}
		}
		return sb.String()
	}
	for _, p := range e.s.sets {
		if x, y := p[0]-e.box.StartCol, p[1]-e.box.StartRow; x < 0 || y < 0 || x >= t.cols || y >= t.rows {
			return fmt.Sprintf("drew outside of the box: at column %d, row %d", x, y)
		}
	}
	for y := 0; y < t.rows; y++ {
		for x := 0; x < t.cols; x++ {
			want := t.at(x, y)
			if want.any {
				continue
			}
			got, ok := e.s.cells[[2]int{x + e.box.StartCol, y + e.box.StartRow}]
			if !ok {
				got = blank
			}
			if got != want.cellv {
				return fmt.Sprintf("column %d of row %d shows %q+%q style %v, want %q+%q style %v%s", x, y, got.ch, got.comb, got.sty, want.ch, want.comb, want.sty, dump())
			}
		}
	}
	if at := [2]int{t.col + e.box.StartCol, t.row + e.box.StartRow}; e.s.cursorOn != e.out.shown || e.out.shown && e.out.at == [2]int{t.col, t.row} && e.s.cursor != at {
		return fmt.Sprintf("cursor shown: %v at %v, want %v at %v%s", e.s.cursorOn, e.s.cursor, e.out.shown, at, dump())
	}
	return ""
}

type editOp struct {
	name string
	keys []key
	box  *term.PositionBox
}

func (o editOp) widget(e *editors) {
	for _, k := range o.keys {
		e.v.HandleKey(k.event())
	}
}

func editKey(k tcell.Key, mod tcell.ModMask) editOp {
	kk := key{k: k, mod: mod}
	return editOp{name: kk.String(), keys: []key{kk}}
}

func editText(s string) editOp {
	o := editOp{name: fmt.Sprintf("%q", s)}
	for _, r := range s {
		o.keys = append(o.keys, key{k: tcell.KeyRune, r: r})
	}
	return o
}

func editBox(x, y, cols, rows int) editOp {
	return editOp{name: fmt.Sprintf("box of %dx%d at %d,%d", cols, rows, x, y), box: &term.PositionBox{StartCol: x, StartRow: y, Cols: cols, Rows: rows}}
}

// editOps are the operations; the first editCore of them are also combined to
// longer sequences.
var editOps = []editOp{
	editText("a"), editText("世"), editText("b c"), editKey(tcell.KeyLeft, 0), editKey(tcell.KeyBackspace2, 0), editKey(tcell.KeyUp, 0),
	editKey(tcell.KeyEnter, 0), editKey(tcell.KeyCtrlA, 0), editKey(tcell.KeyTab, 0), editKey(tcell.KeyCtrlW, 0), editKey(tcell.KeyDown, 0), editText("metric_name{"),
	editKey(tcell.KeyCtrlC, 0), editKey(tcell.KeyDelete, 0),
	editKey(tcell.KeyRight, 0), editKey(tcell.KeyHome, 0), editKey(tcell.KeyEnd, 0), editKey(tcell.KeyCtrlE, 0), editKey(tcell.KeyCtrlK, 0), editKey(tcell.KeyCtrlU, 0),
	editKey(tcell.KeyBackspace, 0), editKey(tcell.KeyCtrlB, 0), editKey(tcell.KeyCtrlF, 0), editKey(tcell.KeyCtrlP, 0), editKey(tcell.KeyCtrlN, 0), editKey(tcell.KeyBacktab, 0),
	editKey(tcell.KeyEscape, 0), editKey(tcell.KeyF5, 0), editKey(tcell.KeyPgUp, 0), editKey(tcell.KeyLeft, tcell.ModCtrl), editKey(tcell.KeyCtrlJ, 0), editKey(tcell.KeyInsert, 0),
	editText("é"), editText("e\u0301"), editText(strings.Repeat("0123456789", 6)),
	editKey(tcell.KeyCtrlD, 0), editBox(3, 5, 30, 14), editBox(3, 5, 9, 9), editBox(0, 0, 60, 20), editBox(7, 2, 4, 3), editBox(3, 5, 10, 6), editBox(3, 5, 13, 30),
}

const (
	editCore  = 14
	editBurst = 35 // the ones from there on can't be part of a burst
)

func boundsC30(q bool) string {
	return fmt.Sprintf("every sequence of <=%d out of %d operations (ASCII, multi-byte, wide and combining characters, words, 60 characters at once, cursor keys, home/end, every emacs key the editor has apart from clearing the screen, history, completion menu, enter, interrupt, end of input, resizing and moving the box) and of <=%d out of %d of them, each with the widget's keys one at a time and all at once x boxes from 4x3 to 60x30 (single operations also at 300x20, 40x270, 3x300), 0, 3 or 9 suggestions, answers, prompts of several lengths and initial input; every pair repeated to 18 (thorough: 50); compared after every step: cells, colours, cursor, lines entered", map[bool]int{true: 2, false: 3}[q], len(editOps), map[bool]int{true: 4, false: 5}[q], editCore)
}

func runC30(h *vh.H) {
	cfgs := []editCfg{
		{cols: 60, rows: 30, prefix: "> "},
		{cols: 10, rows: 10, prefix: "> ", answer: "ok\n"},
		{cols: 30, rows: 12, prefix: "> ", suggest: 3, answer: "a世b\nok\n"},
		{cols: 13, rows: 9, prefix: "", suggest: 9},
		{cols: 60, rows: 30, prefix: "世> ", suggest: 9, initial: sp("sum")},
		{cols: 7, rows: 8, prefix: "prompt:"},
		{cols: 4, rows: 3, prefix: "> "},
		{cols: 60, rows: 30, prefix: "> ", answer: "ok\n", burst: true},
		{cols: 60, rows: 30, prefix: "世> ", suggest: 3, burst: true, initial: sp("é")},
		{cols: 25, rows: 26, prefix: "> ", answer: "ok\n", burst: true},
	}
	run := func(ix []int, cfgs []editCfg) {
		if h.Stop() {
			return
		}
		ix = append([]int{}, ix...)
		for _, cfg := range cfgs {
			cfg := cfg
			ok := true
			for _, i := range ix {
				ok = ok && !(cfg.burst && i >= editBurst)
			}
			if !ok {
				continue
			}
			h.Case(func() string {
				var s []string
				for _, i := range ix {
					s = append(s, editOps[i].name)
				}
				return fmt.Sprintf("%v: %s", cfg, strings.Join(s, ", "))
			}, func(c *vh.C) {
				fail, done := "", false
				synctest.Test(theT, func(t *testing.T) {
					defer func() { done = true }()
					defer vh.Recover(&fail)
					fail = caseEdit(cfg, ix, c)
				})
				if fail != "" {
					c.Failf("%s", fail)
				}
				if !done {
					c.Failf("bubble ended early")
				}
			})
		}
	}
	vh.Seqs(len(editOps), 0, h.Pick(2, 3), func(ix []int) { run(ix, cfgs) })
	vh.Seqs(editCore, 3, h.Pick(4, 5), func(ix []int) {
		switch {
		case len(ix) == 3:
			run(ix, cfgs)
		case len(ix) == 4 && !h.Quick():
			run(ix, cfgs[:8])
		default:
			run(ix, []editCfg{cfgs[2]})
		}
	})
	vh.Seqs(len(editOps), 1, 1, func(ix []int) {
		run(ix, []editCfg{{cols: 300, rows: 20, prefix: "> "}, {cols: 40, rows: 270, prefix: "> ", suggest: 9}, {cols: 3, rows: 300, prefix: ""}})
	})
	vh.Pumped(len(editOps), []int{h.Pick(18, 50)}, func(ix []int) { run(ix, []editCfg{cfgs[1], cfgs[2]}) })
}

func caseEdit(cfg editCfg, ix []int, c *vh.C) string {
	e := startEditors(cfg)
	defer e.end()
	if msg := e.compare(); msg != "" {
		return "at the start: " + msg
	}
	if cfg.burst {
		for _, i := range ix {
			editOps[i].widget(e)
		}
	}
	for n, i := range ix {
		o := editOps[i]
		if o.box != nil {
			e.setBox(*o.box)
		}
		if !cfg.burst {
			o.widget(e)
		}
		text := ""
		for _, k := range o.keys {
			if k.k == tcell.KeyRune {
				text += string(k.r)
				continue
			}
			if codes := k.codes(); len(codes) > 0 {
				e.in.keys = append(e.in.keys, codes[0])
			}
		}
		if text != "" {
			e.in.keys = append(e.in.keys, []byte(text))
		}
		e.settle(len(o.keys))
		if !cfg.burst {
			if msg := e.compare(); msg != "" {
				return fmt.Sprintf("after operation %d (%s): %s", n+1, o.name, msg)
			}
		}
		c.Trans(1)
	}
	if cfg.burst {
		// the widget reads a key per 10 ms
		time.Sleep(time.Duration(len(ix)*70+50) * 10 * time.Millisecond)
		synctest.Wait()
		if msg := e.compare(); msg != "" {
			return msg
		}
	}
	c.Trace()
	t := e.out.t
	c.State(fmt.Sprintf("%q %d %d %v", e.lines[1], t.row, t.col, t.cells))
	return ""
}
