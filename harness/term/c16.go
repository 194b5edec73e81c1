package main

import (
	"fmt"
	"strings"

	"github.com/c-bata/go-prompt"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif/vh"
)

// textArea is the prompt's text area together with its reference.
type textArea struct {
	*console
	s   *fakeScreen
	ref *refTerm
	x0  int
	y0  int
}

type taOp struct {
	name string
	do   func(a *textArea)
}

func write(s string) taOp {
	return taOp{fmt.Sprintf("write(%q)", s), func(a *textArea) { a.out.WriteStr(s); a.ref.write(s) }}
}

func fwd(n int) taOp {
	return taOp{fmt.Sprintf("forward(%d)", n), func(a *textArea) { a.out.CursorForward(n); a.ref.forward(n) }}
}

func (t *refTerm) forward(n int) {
	t.col += n
	if t.col >= t.cols {
		t.col = t.cols - 1
	}
	t.clamp()
}

func back(n int) taOp {
	return taOp{fmt.Sprintf("backward(%d)", n), func(a *textArea) {
		a.out.CursorBackward(n)
		if n < 0 {
			a.ref.forward(-n)
			return
		}
		a.ref.col -= n
		a.ref.clamp()
	}}
}

func down(n int) taOp {
	return taOp{fmt.Sprintf("down(%d)", n), func(a *textArea) { a.out.CursorDown(n); a.ref.row += n; a.ref.clamp() }}
}

func up(n int) taOp {
	return taOp{fmt.Sprintf("up(%d)", n), func(a *textArea) { a.out.CursorUp(n); a.ref.row -= n; a.ref.clamp() }}
}

func goTo(row, col int) taOp {
	return taOp{fmt.Sprintf("goto(%d,%d)", row, col), func(a *textArea) {
		a.out.CursorGoTo(row, col)
		a.ref.row, a.ref.col = row, col
		a.ref.clamp()
	}}
}

func sizeTo(cols, rows int) taOp {
	return taOp{fmt.Sprintf("resize(%dx%d)", cols, rows), func(a *textArea) {
		a.v.SetBox(term.PositionBox{StartCol: a.x0, StartRow: a.y0, Cols: cols, Rows: rows})
		a.ref.resize(cols, rows)
	}}
}

func style(fg, bg prompt.Color, bold bool) taOp {
	return taOp{fmt.Sprintf("color(%d,%d,%v)", fg, bg, bold), func(a *textArea) {
		a.out.SetColor(fg, bg, bold)
		a.ref.sty = styleOf(fg, bg, bold)
	}}
}

var taOps = []taOp{
	write("a"), write("bc"), write("\n"), write("d\ne"), write("世"), write("e\u0301"), write("\u0301"),
	write("f\ag"), write("hijkl"), write("世界m"),
	{"raw newline", func(a *textArea) { a.out.WriteRaw([]byte{'\n'}); a.ref.newline() }},
	fwd(1), fwd(2), back(1), back(2), back(-1), down(1), down(2), up(1), up(2),
	goTo(0, 0), goTo(1, 1), goTo(9, 9),
	{"scroll down", func(a *textArea) {
		a.out.ScrollDown()
		if t := a.ref; t.row < t.rows-1 {
			t.row++
		} else {
			t.shiftUp()
		}
	}},
	{"scroll up", func(a *textArea) {
		a.out.ScrollUp()
		if t := a.ref; t.row > 0 {
			t.row--
		} else {
			t.shiftDown()
		}
	}},
	{"erase screen", func(a *textArea) {
		a.out.EraseScreen()
		for y := 0; y < a.ref.rows; y++ {
			a.ref.clear(y, 0, a.ref.cols)
		}
	}},
	{"erase up", func(a *textArea) {
		a.out.EraseUp()
		t := a.ref
		for y := 0; y < t.row; y++ {
			t.clear(y, 0, t.cols)
		}
		t.clear(t.row, 0, t.col+1)
	}},
	{"erase down", func(a *textArea) {
		a.out.EraseDown()
		t := a.ref
		for y := t.row + 1; y < t.rows; y++ {
			t.clear(y, 0, t.cols)
		}
		t.clear(t.row, t.col, t.cols)
	}},
	{"erase start of line", func(a *textArea) { a.out.EraseStartOfLine(); a.ref.clear(a.ref.row, 0, a.ref.col+1) }},
	{"erase end of line", func(a *textArea) { a.out.EraseEndOfLine(); a.ref.clear(a.ref.row, a.ref.col, a.ref.cols) }},
	{"erase line", func(a *textArea) { a.out.EraseLine(); a.ref.clear(a.ref.row, 0, a.ref.cols) }},
	{"reset", func(a *textArea) {
		r, ok := a.out.(interface{ Reset() })
		if !ok {
			return
		}
		r.Reset()
		for i := range a.ref.cells {
			a.ref.cells[i] = rcell{cellv: blank}
		}
		a.ref.row, a.ref.col = 0, 0
	}},
	style(prompt.Red, prompt.Blue, true), style(prompt.Black, prompt.DefaultColor, false),
	sizeTo(1, 1), sizeTo(3, 2), sizeTo(2, 3), sizeTo(5, 4), sizeTo(0, 0),
}

func newTextArea(cols, rows, x0, y0 int) *textArea {
	s := newScreen(max(40, cols+2*x0), max(40, rows+2*y0))
	a := &textArea{console: newConsole(s, nil), s: s, ref: newRef(cols, rows), x0: x0, y0: y0}
	a.v.SetBox(term.PositionBox{StartCol: x0, StartRow: y0, Cols: cols, Rows: rows})
	return a
}

// check compares everything visible with the reference.
func (a *textArea) check() string {
	a.s.cells = map[[2]int]cellv{}
	a.s.sets = a.s.sets[:0]
	a.v.FlushTo(a.s)
	t := a.ref
	for _, p := range a.s.sets {
		if x, y := p[0]-a.x0, p[1]-a.y0; x < 0 || y < 0 || x >= t.cols || y >= t.rows {
			return fmt.Sprintf("drew outside of the %dx%d area: at column %d, row %d", t.cols, t.rows, x, y)
		}
	}
	for y := 0; y < t.rows; y++ {
		for x := 0; x < t.cols; x++ {
			want := t.at(x, y)
			if want.any {
				continue
			}
			got, ok := a.s.cells[[2]int{x + a.x0, y + a.y0}]
			if !ok {
				got = blank
			}
			if got != want.cellv {
				return fmt.Sprintf("column %d of row %d is %q+%q style %v, want %q+%q style %v\n%s", x, y,
					got.ch, got.comb, got.sty, want.ch, want.comb, want.sty, a.dump())
			}
		}
	}
	a.s.cursorOn = false
	a.out.ShowCursor()
	if want := [2]int{t.col + a.x0, t.row + a.y0}; !a.s.cursorOn || a.s.cursor != want {
		return fmt.Sprintf("cursor at column %d, row %d, want column %d, row %d", a.s.cursor[0]-a.x0, a.s.cursor[1]-a.y0, t.col, t.row)
	}
	return ""
}

func (a *textArea) dump() string {
	var sb strings.Builder
	for y := 0; y < a.ref.rows; y++ {
		sb.WriteString("got |")
		for x := 0; x < a.ref.cols; x++ {
			if c, ok := a.s.cells[[2]int{x + a.x0, y + a.y0}]; ok {
				sb.WriteString(string(c.ch) + c.comb)
			} else {
				sb.WriteString("_")
			}
		}
		sb.WriteString("| want |")
		for x := 0; x < a.ref.cols; x++ {
			if c := a.ref.at(x, y); c.any {
				sb.WriteString("?")
			} else {
				sb.WriteString(string(c.ch) + c.comb)
			}
		}
		sb.WriteString("|\n")
	}
	return sb.String()
}

func boundsC16(q bool) string {
	return fmt.Sprintf("every sequence of <=%d operations out of %d (writes incl. newlines, wide, combining and control characters; cursor movements; scrolls; erasures; styles; reset; resizes incl. to nothing) on text areas of every size from 1x1 to 4x3, empty and filled; all cells, styles and the cursor compared with a reference terminal after the last operation (shorter sequences are enumerated too); the same for every sequence of up to %d out of %d core operations at 4 sizes; every pair of operations repeated to 10 (thorough: 41) at 3 sizes; every sequence of up to 2 out of 60 operations on areas of 80x24 and 132x43, the cursor at every place of them; every text of 2-4 (thorough: 5) characters out of 18 of every kind (combining, wide, control, invisible, invalid) written in one piece and in two at 4 sizes, runs of up to 40 (thorough: 300) of each; text in every style (all colours, bold or not) and in every other one after it",
		map[bool]int{true: 3, false: 4}[q], len(taOps), map[bool]int{true: 5, false: 6}[q], len(taCore))
}

// taCore are the operations that are also combined to longer sequences.
var taCore = []string{"write(\"a\")", "write(\"世\")", "write(\"\\n\")", "write(\"hijkl\")", "backward(1)", "up(1)", "goto(0,0)",
	"scroll down", "scroll up", "erase down", "erase start of line", "resize(3x2)", "resize(2x3)"}

func runC16(h *vh.H) {
	var sizes [][2]int
	for c := 1; c <= 4; c++ {
		for r := 1; r <= 3; r++ {
			sizes = append(sizes, [2]int{c, r})
		}
	}
	var core []int
	for _, n := range taCore {
		for i, o := range taOps {
			if o.name == n {
				core = append(core, i)
			}
		}
	}
	if len(core) != len(taCore) {
		panic("operation missing")
	}
	const fill = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	run := func(ix []int, sizes [][2]int) {
		if h.Stop() {
			return
		}
		for _, sz := range sizes {
			for _, filled := range []bool{false, true} {
				sz, filled := sz, filled
				h.Case(func() string {
					var ops []string
					for _, i := range ix {
						ops = append(ops, taOps[i].name)
					}
					return fmt.Sprintf("%dx%d area, filled=%v: %s", sz[0], sz[1], filled, strings.Join(ops, ", "))
				}, func(c *vh.C) {
					a := newTextArea(sz[0], sz[1], 2, 1)
					if filled {
						write(fill[:sz[0]*sz[1]]).do(a)
						goTo(sz[1]/2, sz[0]/2).do(a)
					}
					for _, i := range ix {
						taOps[i].do(a)
					}
					c.Trans(len(ix))
					if msg := a.check(); msg != "" {
						c.Failf("%s", msg)
					}
					c.Trace()
					if len(ix) < 3 {
						c.State(fmt.Sprint(a.ref.cols, a.ref.rows, a.ref.row, a.ref.col, a.ref.cells))
					}
				})
			}
		}
	}
	vh.Seqs(len(taOps), 1, h.Pick(3, 4), func(ix []int) { run(ix, sizes) })
	lo, hi := h.Pick(4, 5), h.Pick(5, 6)
	vh.Seqs(len(core), lo, hi, func(ix []int) {
		jx := make([]int, len(ix))
		for i, j := range ix {
			jx[i] = core[j]
		}
		run(jx, [][2]int{{1, 2}, {2, 2}, {3, 2}, {4, 3}})
	})
	lengths := []int{10}
	if !h.Quick() {
		lengths = []int{10, 41}
	}
	vh.Pumped(len(taOps), lengths, func(ix []int) { run(ix, [][2]int{{1, 2}, {3, 2}, {4, 3}}) })
	largeC16(h)
	textsC16(h)
	stylesC16(h)
}

// stylesC16 writes in every style, and in every other one after it.
func stylesC16(h *vh.H) {
	const n = int(prompt.White) + 1
	for i := 0; i < n*n*2; i++ {
		if h.Stop() {
			return
		}
		one := style(prompt.Color(i/2%n), prompt.Color(i/2/n), i%2 == 1)
		h.Case(func() string { return "write after " + one.name }, func(c *vh.C) {
			for j := 0; j < n*n*2; j++ {
				two := style(prompt.Color(j/2%n), prompt.Color(j/2/n), j%2 == 1)
				a := newTextArea(4, 2, 2, 1)
				for _, o := range []taOp{write("a"), one, write("b世"), two, write("\nc")} {
					o.do(a)
				}
				c.Trans(5)
				if msg := a.check(); msg != "" {
					c.Failf("then %s: %s", two.name, msg)
				}
			}
			c.Trace()
		})
	}
}

// textsC16 writes every short text over characters of every kind, in one piece and in two.
func textsC16(h *vh.H) {
	chars := []string{"a", "世", "\u0301", "\u20dd", "\u200b", "\u200d", "😀", "é", "\n", "\r", "\t", "\x1b", "\x7f", "\u0085", "\xff", " ", "ｱ", "\U000e0100"}
	vh.Seqs(len(chars), 2, h.Pick(4, 5), func(ix []int) {
		if h.Stop() {
			return
		}
		ix = append([]int{}, ix...)
		text := ""
		for _, i := range ix {
			text += chars[i]
		}
		h.Case(func() string { return fmt.Sprintf("write %q", text) }, func(c *vh.C) {
			for _, sz := range [][2]int{{1, 1}, {2, 2}, {3, 2}, {9, 1}} {
				for cut := 0; cut < len(ix); cut++ {
					a := newTextArea(sz[0], sz[1], 2, 1)
					n := len(strings.Join(pickStr(chars, ix[:cut]), ""))
					if cut > 0 {
						write(text[:n]).do(a)
					}
					write(text[n:]).do(a)
					c.Trans(1)
					if msg := a.check(); msg != "" {
						c.Failf("%dx%d, %q and %q: %s", sz[0], sz[1], text[:n], text[n:], msg)
					}
				}
			}
			c.Trace()
		})
	})
	for n := 1; n <= h.Pick(40, 300); n++ {
		h.Case(func() string { return fmt.Sprintf("%d characters of a kind", n) }, func(c *vh.C) {
			for _, base := range []string{"", "a", "世", "\n"} {
				for _, ch := range chars {
					a := newTextArea(20, 4, 2, 1)
					write(base + strings.Repeat(ch, n) + "z" + strings.Repeat("\u0301\u0308", n)).do(a)
					c.Trans(1)
					if msg := a.check(); msg != "" {
						c.Failf("%q and %d times %q: %s", base, n, ch, msg)
					}
				}
			}
			c.Trace()
		})
	}
}

func pickStr(l []string, ix []int) (out []string) {
	for _, i := range ix {
		out = append(out, l[i])
	}
	return out
}

// largeC16 does the same on areas of realistic sizes.
func largeC16(h *vh.H) {
	line := strings.Repeat("the quick brown fox jumps over the lazy dog, 世界! ", 12)
	var lines []string
	for i := 0; i < 130; i++ {
		lines = append(lines, fmt.Sprintf("line %d%s", i, strings.Repeat("~", i%90)))
	}
	ops := append(append([]taOp{}, taOps...), write(line), write(strings.Join(lines, "\n")), write(line[:81]+"\nx"),
		fwd(40), fwd(1000), back(40), back(1000), down(20), down(1000), up(20), up(1000), goTo(20, 70), goTo(1000, 1000), goTo(0, 79), goTo(23, 0),
		sizeTo(80, 24), sizeTo(81, 25), sizeTo(40, 12), sizeTo(132, 43), sizeTo(260, 3), sizeTo(3, 260))
	sizes := [][2]int{{80, 24}, {132, 43}}
	if !h.Quick() {
		sizes = append(sizes, [2]int{20, 6}, [2]int{7, 101}, [2]int{260, 2})
	}
	do := func(sz [2]int, filled int, ix []int) {
		if h.Stop() {
			return
		}
		ix = append([]int{}, ix...)
		h.Case(func() string {
			var n []string
			for _, i := range ix {
				n = append(n, fmt.Sprintf("%.40s", ops[i].name))
			}
			return fmt.Sprintf("%dx%d area, filled %d: %s", sz[0], sz[1], filled, strings.Join(n, ", "))
		}, func(c *vh.C) {
			a := newTextArea(sz[0], sz[1], 3, 2)
			switch filled {
			case 1:
				write(strings.Join(lines, "\n")).do(a)
				goTo(sz[1]/2, sz[0]/2).do(a)
			case 2:
				write(strings.Repeat("a", sz[0]*sz[1])).do(a)
			}
			for _, i := range ix {
				ops[i].do(a)
			}
			c.Trans(len(ix))
			if msg := a.check(); msg != "" {
				c.Failf("%s", msg)
			}
			c.Trace()
		})
	}
	for _, sz := range sizes {
		for filled := 0; filled < 3; filled++ {
			vh.Seqs(len(ops), 1, 2, func(ix []int) { do(sz, filled, ix) })
		}
	}
	if !h.Quick() {
		vh.Seqs(len(ops), 3, 3, func(ix []int) { do([2]int{20, 6}, 1, ix) })
	}
	// the cursor at every place
	for _, sz := range sizes {
		for row := 0; row < sz[1]; row++ {
			h.Case(func() string { return fmt.Sprintf("%dx%d area, every column of row %d", sz[0], sz[1], row) }, func(c *vh.C) {
				for col := 0; col < sz[0]; col++ {
					a := newTextArea(sz[0], sz[1], 3, 2)
					goTo(row, col).do(a)
					write("a世").do(a)
					if msg := a.check(); msg != "" {
						c.Failf("from column %d: %s", col, msg)
					}
					c.Trans(2)
				}
				c.Trace()
			})
		}
	}
}
