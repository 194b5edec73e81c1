package main

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif/vh"
)

// phased shifts the prompt's reading polls against its main loop's, so that
// the two never happen at the same instant of virtual time.
type phased struct {
	prompt.ConsoleParser
	first bool
}

func (p *phased) Setup() error {
	p.first = true
	return p.ConsoleParser.Setup()
}

func (p *phased) Read() ([]byte, error) {
	if p.first {
		p.first = false
		time.Sleep(5 * time.Millisecond)
	}
	return p.ConsoleParser.Read()
}

// promptCfg is how a prompt widget is used.
type promptCfg struct {
	initial  *string
	answer   string        // what the handler returns ("" for nothing)
	slow     time.Duration // how long the handler takes
	slowComp time.Duration // how long completing takes
	stopOn   string        // the line that stops the prompt
	box      string        // when the prompt gets its first box: before, after, late
	suggest  int           // number of suggestions
	prefix   string
}

func (p promptCfg) String() string {
	in := "none"
	if p.initial != nil {
		in = fmt.Sprintf("%q", *p.initial)
	}
	return fmt.Sprintf("initial input %s, first box %s Run, answer %q after %v, completing takes %v, stop on %q, %d suggestions", in, p.box, p.answer, p.slow, p.slowComp, p.stopOn, p.suggest)
}

// promptRun is one running prompt widget.
type promptRun struct {
	promptCfg
	s         *fakeScreen
	v         *term.PromptView
	ctx       context.Context
	cancel    func()
	handled   []string
	shutdowns int
	ended     bool // nothing's recorded any more
	returned  bool
	err       error
	typed     string   // of the current line
	want      []string // lines entered
	cancelled bool
	reboxed   bool
	boxes     []term.PositionBox
}

var bigBox = term.PositionBox{StartCol: 1, StartRow: 2, Cols: 60, Rows: 60}

func startPrompt(cfg promptCfg) *promptRun {
	p := &promptRun{promptCfg: cfg, s: newScreen(100, 100)}
	p.ctx, p.cancel = context.WithCancel(context.Background())
	p.v = &term.PromptView{
		Screen: p.s,
		SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt {
			pr := newPrompt(func(d prompt.Document) []prompt.Suggest {
				time.Sleep(cfg.slowComp)
				var out []prompt.Suggest
				for i := 0; i < cfg.suggest && d.TextBeforeCursor() != ""; i++ {
					out = append(out, prompt.Suggest{Text: fmt.Sprintf("世uggestion%d", i), Description: "what it does"})
				}
				return out
			}, append([]prompt.Option{prompt.OptionPrefix("> ")}, opts...)...)
			setf(pr, "in", &phased{ConsoleParser: getf(pr, "in").(prompt.ConsoleParser)})
			return pr
		},
		HandleInput: func(in string) (*string, bool) {
			if p.ended {
				return nil, false
			}
			p.handled = append(p.handled, in)
			time.Sleep(cfg.slow)
			if cfg.answer == "" {
				return nil, cfg.stopOn != "" && in == cfg.stopOn
			}
			a := cfg.answer
			return &a, cfg.stopOn != "" && in == cfg.stopOn
		},
	}
	if cfg.initial != nil {
		p.want = append(p.want, *cfg.initial)
	}
	if cfg.box == "before" {
		p.setBox(bigBox)
	}
	go func() {
		p.err = p.v.Run(p.ctx, cfg.initial, func() { p.shutdowns++; p.cancel() })
		p.returned = true
	}()
	synctest.Wait()
	if cfg.box == "after" {
		p.setBox(bigBox)
	}
	return p
}

func (p *promptRun) setBox(b term.PositionBox) {
	p.v.SetBox(b)
	p.boxes = append(p.boxes, b)
}

func (p *promptRun) typeKeys(s string) {
	for _, r := range s {
		if r == '\r' {
			p.v.HandleKey(tcell.NewEventKey(tcell.KeyEnter, 0, 0))
			p.want = append(p.want, p.typed)
			p.typed = ""
			continue
		}
		p.v.HandleKey(tcell.NewEventKey(tcell.KeyRune, r, 0))
		p.typed += string(r)
	}
}

// end lets the prompt's goroutines finish.
func (p *promptRun) end() {
	p.ended = true
	p.cancel()
	p.v.SetBox(bigBox)
	for i := 0; i < 4; i++ {
		p.v.HandleKey(tcell.NewEventKey(tcell.KeyEnter, 0, 0))
		time.Sleep(time.Second)
	}
}

// lines checks the lines that have been handled; all of them if complete.
func (p *promptRun) lines(complete bool) string {
	want := p.want
	stopped := false
	if p.stopOn != "" {
		for i, l := range want {
			if l == p.stopOn {
				want = want[:i+1]
				stopped = true
				break
			}
		}
	}
	if len(p.handled) > len(want) || complete && len(p.handled) < len(want) {
		return fmt.Sprintf("handled %q, want %q", p.handled, want)
	}
	for i, l := range p.handled {
		if l != want[i] {
			return fmt.Sprintf("handled %q, want %q", p.handled, want)
		}
	}
	n := 0
	if stopped && len(p.handled) == len(want) {
		n = 1
	}
	if p.shutdowns != n {
		return fmt.Sprintf("shut down %d times, want %d (handled %q)", p.shutdowns, n, p.handled)
	}
	if n == 1 && !p.returned {
		return "Run goes on after the prompt was stopped"
	}
	return ""
}

// transcript checks what's shown, if that's all in view.
func (p *promptRun) transcript() string {
	var sb strings.Builder
	for _, l := range p.handled {
		sb.WriteString("> " + l + "\n" + p.answer)
	}
	if p.shutdowns == 0 {
		sb.WriteString("> " + p.typed)
	}
	ref := newRef(bigBox.Cols, bigBox.Rows)
	ref.write(sb.String())
	p.s.cells = map[[2]int]cellv{}
	p.v.FlushTo(p.s)
	for y := 0; y < ref.rows; y++ {
		for x := 0; x < ref.cols; x++ {
			want := ref.at(x, y)
			got, ok := p.s.cells[[2]int{x + bigBox.StartCol, y + bigBox.StartRow}]
			if !ok {
				got = blank
			}
			if !want.any && (got.ch != want.ch || got.comb != want.comb) {
				return fmt.Sprintf("column %d of row %d shows %q, want %q; want shown: %q", x, y, got.ch, want.ch, sb.String())
			}
		}
	}
	if at := [2]int{ref.col + bigBox.StartCol, ref.row + bigBox.StartRow}; p.shutdowns == 0 && (!p.s.cursorOn || p.s.cursor != at) {
		return fmt.Sprintf("cursor shown: %v at %v, want %v", p.s.cursorOn, p.s.cursor, at)
	}
	return ""
}

type promptOp struct {
	name string
	do   func(p *promptRun)
}

var longLine = strings.Repeat("0123456789", 15)

var promptOps = []promptOp{
	{"enter nothing", func(p *promptRun) { p.typeKeys("\r") }},
	{"enter q", func(p *promptRun) { p.typeKeys("q\r") }},
	{"enter héé世", func(p *promptRun) { p.typeKeys("héé世\r") }},
	{"enter 150 characters", func(p *promptRun) { p.typeKeys(longLine + "\r") }},
	{"type zz", func(p *promptRun) { p.typeKeys("zz") }},
	{"type xab and edit it to cab", func(p *promptRun) {
		for _, k := range []tcell.Key{tcell.KeyRune, tcell.KeyBackspace2, tcell.KeyRune + 1000, tcell.KeyRune + 1001, tcell.KeyLeft, tcell.KeyLeft, tcell.KeyRune + 1002, tcell.KeyEnd} {
			switch k {
			case tcell.KeyRune:
				p.v.HandleKey(tcell.NewEventKey(tcell.KeyRune, 'x', 0))
			case tcell.KeyRune + 1000, tcell.KeyRune + 1001, tcell.KeyRune + 1002:
				p.v.HandleKey(tcell.NewEventKey(tcell.KeyRune, rune('a'+k-tcell.KeyRune-1000), 0))
			default:
				p.v.HandleKey(tcell.NewEventKey(k, 0, 0))
			}
		}
		p.typed += "cab"
	}},
	{"10ms", func(p *promptRun) { time.Sleep(10 * time.Millisecond) }},
	{"35ms", func(p *promptRun) { time.Sleep(35 * time.Millisecond) }},
	{"1s", func(p *promptRun) { time.Sleep(time.Second) }},
	{"box 20x9", func(p *promptRun) { p.setBox(term.PositionBox{Cols: 20, Rows: 9}) }},
	{"box 3x1", func(p *promptRun) { p.setBox(term.PositionBox{Cols: 3, Rows: 1}) }},
	{"no box", func(p *promptRun) { p.setBox(term.PositionBox{}) }},
	{"cancel", func(p *promptRun) { p.cancel(); p.cancelled = true }},
}

func sp(s string) *string { return &s }

func boundsC23(q bool) string {
	return fmt.Sprintf("every sequence of <=%d operations out of %d (entering empty, short, non-ASCII and 150-character lines, typing without entering, letting 10ms/35ms/1s pass, resizing incl. to nothing, cancelling) x handler answers/durations, stop lines, slow completion, initial input (none, empty, text, text with control characters, text that is a key's code, 200 characters), first box before/after Run or late; every pair of operations repeated to 18 (thorough: 70); in virtual time with the prompt's own loop, complete transcripts compared where they fit", map[bool]int{true: 3, false: 4}[q], len(promptOps))
}

func runC23(h *vh.H) {
	ms := time.Millisecond
	var cfgs []promptCfg
	for _, init := range []*string{nil, sp(""), sp("ab"), sp("a\nb\tc\rd"), sp("\x1b[A"), sp("\t"), sp("q"), sp(strings.Repeat("wörter ", 30))} {
		for _, box := range []string{"before", "after", "late"} {
			for i, x := range []promptCfg{
				{},
				{answer: "ok\n"},
				{answer: "one\ntwo", slow: 30 * ms},
				{answer: "bye\n", stopOn: "q", slowComp: 30 * ms},
				{stopOn: "", slowComp: 45 * ms, slow: 15 * ms, suggest: 3},
			} {
				if init != nil && len(*init) > 3 && i != 1 && i != 4 {
					continue
				}
				x.initial, x.box = init, box
				cfgs = append(cfgs, x)
			}
		}
	}
	run := func(ix []int) {
		if h.Stop() {
			return
		}
		ix = append([]int{}, ix...)
		for ci, cfg := range cfgs {
			if len(ix) > 2 && ci%3 != 0 && h.Quick() || len(ix) > 6 && ci%7 != 0 {
				continue
			}
			h.Case(func() string {
				var s []string
				for _, i := range ix {
					s = append(s, promptOps[i].name)
				}
				return fmt.Sprintf("%v: %s", cfg, strings.Join(s, ", "))
			}, func(c *vh.C) {
				fail, done := "", false
				synctest.Test(theT, func(t *testing.T) {
					defer func() { done = true }()
					defer vh.Recover(&fail)
					fail = casePrompt(cfg, ix, c)
				})
				if fail != "" {
					c.Failf("%s", fail)
				}
				if !done {
					c.Failf("bubble ended early")
				}
			})
		}
	}
	vh.Seqs(len(promptOps), 0, h.Pick(3, 4), run)
	lengths := []int{18}
	if !h.Quick() {
		lengths = []int{18, 70}
	}
	vh.Pumped(len(promptOps), lengths, run)
}

func casePrompt(cfg promptCfg, ix []int, c *vh.C) string {
	p := startPrompt(cfg)
	defer p.end()
	for _, i := range ix {
		promptOps[i].do(p)
		synctest.Wait()
		if p.cancelled && !p.returned {
			return "Run didn't return after having been cancelled"
		}
		if msg := p.lines(false); msg != "" {
			return msg
		}
		c.Trans(1)
	}
	if cfg.box == "late" || len(p.boxes) == 0 {
		p.setBox(bigBox)
	}
	time.Sleep(3 * time.Second)
	synctest.Wait()
	if p.cancelled || p.shutdowns > 0 {
		if msg := p.lines(p.shutdowns > 0); msg != "" {
			return msg
		}
	} else if msg := p.lines(true); msg != "" {
		return msg
	}
	fits := len(p.boxes) == 1 && !p.cancelled && p.suggest == 0
	for _, l := range append(append([]string{}, p.want...), p.typed) {
		if len(l) > 50 || strings.ContainsAny(l, "\t\n\r\x1b") {
			fits = false
		}
	}
	if fits {
		if msg := p.transcript(); msg != "" {
			return msg
		}
		c.Note("transcripts", 1)
	}
	before := p.shutdowns
	if p.shutdowns == 0 {
		p.cancel()
		synctest.Wait()
	}
	if !p.returned {
		return "Run didn't return after having been cancelled"
	}
	if p.err != nil {
		return fmt.Sprintf("Run returned %v", p.err)
	}
	n := len(p.handled)
	if p.shutdowns > 0 {
		p.typeKeys("more\r")
		time.Sleep(time.Second)
		if len(p.handled) != n {
			return fmt.Sprintf("handled %q after having been stopped", p.handled[n:])
		}
	}
	if p.shutdowns != before {
		return "shut down again"
	}
	c.Trace()
	c.State(fmt.Sprintf("%q %q %q %v %v", p.want, p.typed, p.handled, p.boxes, p.cancelled))
	c.Outcome(fmt.Sprintf("%q %d", p.handled, p.shutdowns))
	return ""
}
