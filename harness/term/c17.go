package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif/vh"
)

// fence wraps a widget and checks that it draws inside its box only.
type fence struct {
	name string
	term.View
	box   term.PositionBox
	msg   string
	drawn map[[2]int]cellv
}

func (f *fence) SetBox(b term.PositionBox) {
	f.box = b
	f.View.SetBox(b)
}

func (f *fence) FlushTo(s tcell.Screen) {
	rec := newScreen(0, 0)
	f.View.FlushTo(rec)
	f.drawn = rec.cells
	for _, p := range rec.sets {
		x, y := p[0]-f.box.StartCol, p[1]-f.box.StartRow
		if x < 0 || y < 0 || x >= f.box.Cols || y >= f.box.Rows {
			f.msg = fmt.Sprintf("%s drew at column %d, row %d of its %dx%d box", f.name, x, y, f.box.Cols, f.box.Rows)
			return
		}
	}
	for p, c := range rec.cells {
		if p[0]-f.box.StartCol+width(c.ch) > f.box.Cols {
			f.msg = fmt.Sprintf("%s drew the wide character %q into the last column of its %dx%d box", f.name, c.ch, f.box.Cols, f.box.Rows)
		}
	}
	for p, c := range rec.cells {
		s.SetContent(p[0], p[1], c.ch, []rune(c.comb), c.sty)
	}
}

type textSpan struct {
	s   string
	sty tcell.Style
}

var (
	red  = tcell.StyleDefault.Foreground(tcell.ColorRed)
	bold = tcell.StyleDefault.Bold(true)
)

var texts = [][]textSpan{
	nil,
	{{"abc", red}},
	{{"a\nb\n", bold}},
	{{"世界a", red}},
	{{"a世\n界", bold}, {"世", red}},
	{{"e\u0301x\u0301\u0301y", red}},
	{{"\u0301a", red}},
	{{"\n\n\n", red}},
	{{"the quick brown fox jumps", red}, {" over the lazy dog", bold}},
	{{"• ", red}, {"one, two", red}, {"\n\n", tcell.StyleDefault}, {"• ", bold}, {"three", bold}, {"\n\n", tcell.StyleDefault}, {"• ", red}, {"four", red}, {"\n\n", tcell.StyleDefault}},
	{{"a\tb\x1bc\r\n", bold}, {"", red}, {"d", red}},
	{{"12345\n1234\n123\n12\n1\n", red}},
}

// textTail is what a text box of the given size shows.
func textTail(spans []textSpan, cols, rows int) *refTerm {
	n := 2
	for _, s := range spans {
		n += strings.Count(s.s, "\n")
		if cols > 0 {
			n += 1 + 2*len(s.s)/cols
		}
	}
	all := newRef(cols, n)
	for _, s := range spans {
		all.sty = s.sty
		all.write(s.s)
	}
	out := newRef(cols, rows)
	first := max(0, all.row+1-rows)
	for y := 0; y < rows && first+y <= all.row; y++ {
		for x := 0; x < cols; x++ {
			*out.at(x, y) = *all.at(x, first+y)
		}
	}
	return out
}

// checkText compares what a text box has drawn.
func (f *fence) checkText(spans []textSpan) string {
	if f.msg != "" {
		return f.msg
	}
	ref := textTail(spans, f.box.Cols, f.box.Rows)
	for y := 0; y < f.box.Rows; y++ {
		for x := 0; x < f.box.Cols; x++ {
			want := ref.at(x, y)
			got, ok := f.drawn[[2]int{x + f.box.StartCol, y + f.box.StartRow}]
			if !ok {
				return fmt.Sprintf("column %d of row %d of the %dx%d box hasn't been drawn", x, y, f.box.Cols, f.box.Rows)
			}
			if !want.any && got != want.cellv {
				return fmt.Sprintf("column %d of row %d of the %dx%d box shows %q+%q (%v), want %q+%q (%v)", x, y, f.box.Cols, f.box.Rows, got.ch, got.comb, got.sty, want.ch, want.comb, want.sty)
			}
		}
	}
	return ""
}

type gpoint struct {
	x int64
	y float64
}

func (p gpoint) X() int64   { return p.x }
func (p gpoint) Y() float64 { return p.y }

type gseries struct {
	id  plot.SeriesId
	pts []plot.Point
}

func (s gseries) Title() string        { return fmt.Sprintf("series %d", s.id) }
func (s gseries) Id() plot.SeriesId    { return s.id }
func (s gseries) Points() []plot.Point { return s.pts }

func graph(ys ...[]float64) *plot.PlatonicGraph {
	var set plot.SeriesSet
	for i, y := range ys {
		s := gseries{id: plot.SeriesId(i + 1)}
		for j, v := range y {
			s.pts = append(s.pts, gpoint{int64(j) * 1000, v})
		}
		set = append(set, s)
	}
	return plot.DataToPlatonicGraph(set, plot.AutoAxes())
}

var graphs = map[string]func() *plot.PlatonicGraph{
	"none":        func() *plot.PlatonicGraph { return nil },
	"empty":       func() *plot.PlatonicGraph { return graph() },
	"no points":   func() *plot.PlatonicGraph { return graph(nil, nil) },
	"one point":   func() *plot.PlatonicGraph { return graph([]float64{5}) },
	"flat":        func() *plot.PlatonicGraph { return graph([]float64{5, 5, 5}) },
	"zigzag":      func() *plot.PlatonicGraph { return graph([]float64{0, 9, 1, 8, 2}, []float64{3, 3, 9}) },
	"not numbers": func() *plot.PlatonicGraph { return graph([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}) },
	"mixed":       func() *plot.PlatonicGraph { return graph([]float64{1, math.NaN(), 3, math.Inf(1), -2}) },
	"huge":        func() *plot.PlatonicGraph { return graph([]float64{math.MaxFloat64, -math.MaxFloat64, 0}) },
	"tiny":        func() *plot.PlatonicGraph { return graph([]float64{math.SmallestNonzeroFloat64, 0, 1e-320}) },
	"nearly flat": func() *plot.PlatonicGraph { return graph([]float64{1e16, 1e16 + 2, 1e16}) },
	"many points": func() *plot.PlatonicGraph {
		ys := make([]float64, 500)
		for i := range ys {
			ys[i] = float64((i * 7919) % 101)
		}
		return graph(ys)
	},
}

var graphNames = []string{"none", "empty", "no points", "one point", "flat", "zigzag", "not numbers", "mixed", "huge", "tiny", "nearly flat", "many points"}

func graphView(name string, spacing [2]int) *term.GraphView {
	return &term.GraphView{
		Graph:             graphs[name](),
		RangeLabeler:      func(v float64) string { return fmt.Sprintf("%5.5g", v) },
		DomainLabeler:     func(v int64) string { return fmt.Sprintf("%dms", v) },
		DomainTickSpacing: spacing[0], RangeTickSpacing: spacing[1],
	}
}

func boundsC17(q bool) string {
	n := map[bool]int{true: 7, false: 10}[q]
	return fmt.Sprintf("text boxes: %d contents (wide, combining, control characters, newlines, overflow) at every pair of sizes 0-%d x 0-%d drawn one after the other, also with text added in between, contents compared; graphs: %d data sets (incl. empty, non-finite, extreme) x 3 tick spacings at every size 0-%d x 0-%d; the prompt in virtual time: every sequence of <=3 sizes out of 12 with typing, suggestions and entering in between; text boxes with up to 3000 lines or spans and lines of up to 5000 characters, and graphs, at 20 sizes up to 300x100; the application's nested split with all widgets at every size", len(texts), n, n-1, len(graphNames), 4*n, 3*n)
}

func runC17(h *vh.H) {
	n := h.Pick(7, 10)
	blankScreen := newScreen(0, 0)
	// text boxes
	for ti := range texts {
		for c1 := 0; c1 <= n; c1++ {
			for r1 := 0; r1 < n; r1++ {
				for c2 := 0; c2 <= n; c2++ {
					for r2 := 0; r2 < n; r2++ {
						if h.Stop() {
							return
						}
						b1 := term.PositionBox{StartCol: 3, StartRow: 1, Cols: c1, Rows: r1}
						b2 := term.PositionBox{StartCol: 0, StartRow: 4, Cols: c2, Rows: r2}
						h.Case(func() string { return fmt.Sprintf("text %q at %+v then %+v", texts[ti], b1, b2) }, func(c *vh.C) {
							tb := &term.TextBox{}
							for _, s := range texts[ti] {
								tb.WriteString(s.s, s.sty)
							}
							f := &fence{name: "the text box", View: tb}
							spans := texts[ti]
							for i, b := range []term.PositionBox{b1, b1, b2, b2} {
								f.SetBox(b)
								f.FlushTo(blankScreen)
								if msg := f.checkText(spans); msg != "" {
									c.Failf("drawing #%d: %s", i+1, msg)
								}
								if i == 2 {
									tb.WriteString("+\nmore", bold)
									spans = append(append([]textSpan{}, spans...), textSpan{"+\nmore", bold})
								}
							}
							c.Trans(4)
							c.Trace()
							c.State(fmt.Sprint(f.drawn))
						})
					}
				}
			}
		}
	}
	largeC17(h)
	// graphs
	for _, name := range graphNames {
		for _, spacing := range [][2]int{{0, 0}, {3, 2}, {1, 1}} {
			for cols := 0; cols <= 4*n; cols++ {
				for rows := 0; rows <= 3*n; rows++ {
					if h.Stop() {
						return
					}
					h.Case(func() string { return fmt.Sprintf("graph %s, spacing %v, %dx%d", name, spacing, cols, rows) }, func(c *vh.C) {
						f := &fence{name: "the graph", View: graphView(name, spacing)}
						for i, b := range []term.PositionBox{{Cols: cols, Rows: rows}, {StartCol: 5, StartRow: 2, Cols: rows, Rows: cols}} {
							f.SetBox(b)
							f.FlushTo(blankScreen)
							if f.msg != "" {
								c.Failf("drawing #%d: %s", i+1, f.msg)
							}
						}
						c.Trans(2)
						c.Trace()
					})
				}
			}
		}
	}
	bubble := func(c *vh.C, f func() string) {
		fail, done := "", false
		synctest.Test(theT, func(t *testing.T) {
			defer func() { done = true }()
			defer vh.Recover(&fail)
			fail = f()
		})
		if fail != "" {
			c.Failf("%s", fail)
		}
		if !done {
			c.Failf("bubble ended early")
		}
	}
	// the prompt
	var boxes []term.PositionBox
	for _, c := range []int{0, 1, 5, 20} {
		for _, r := range []int{0, 1, 8} {
			boxes = append(boxes, term.PositionBox{StartCol: c, StartRow: r, Cols: c, Rows: r})
		}
	}
	vh.Seqs(len(boxes), 1, h.Pick(3, 4), func(ix []int) {
		if h.Stop() {
			return
		}
		for _, sugg := range []int{0, 9} {
			for _, line := range []string{"x", "世界世界世界", "a long line that wraps around several times"} {
				h.Case(func() string {
					s := ""
					for _, i := range ix {
						s += fmt.Sprintf(" %dx%d", boxes[i].Cols, boxes[i].Rows)
					}
					return fmt.Sprintf("prompt at%s, %d suggestions, line %q", s, sugg, line)
				}, func(c *vh.C) {
					bubble(c, func() string {
						p := startPrompt(promptCfg{answer: "世界 answer\nmore\n", suggest: sugg, box: "late"})
						defer p.end()
						f := &fence{name: "the prompt", View: p.v}
						draw := func() string {
							synctest.Wait()
							f.FlushTo(blankScreen)
							return f.msg
						}
						f.FlushTo(blankScreen)
						for k, i := range ix {
							f.SetBox(boxes[i])
							if msg := draw(); msg != "" {
								return msg
							}
							p.typeKeys(line)
							if k%2 == 1 {
								p.v.HandleKey(tcell.NewEventKey(tcell.KeyTab, 0, 0))
							}
							time.Sleep(60 * time.Millisecond)
							if msg := draw(); msg != "" {
								return msg
							}
							p.typeKeys("\r")
							time.Sleep(50 * time.Millisecond)
							if msg := draw(); msg != "" {
								return msg
							}
							c.Trans(3)
						}
						c.Trace()
						return ""
					})
				})
			}
		}
	})
	// everything together, like the application does it
	for cols := 0; cols <= h.Pick(45, 90); cols++ {
		for rows := 0; rows <= h.Pick(24, 40); rows++ {
			for gi, name := range graphNames {
				if (cols+rows+gi)%h.Pick(4, 1) != 0 {
					continue
				}
				if h.Stop() {
					return
				}
				h.Case(func() string { return fmt.Sprintf("application view with graph %s at %dx%d", name, cols, rows) }, func(c *vh.C) {
					bubble(c, func() string {
						p := startPrompt(promptCfg{answer: "ok\n", suggest: 3, box: "late"})
						defer p.end()
						key := &term.TextBox{}
						for _, s := range texts[9] {
							key.WriteString(s.s, s.sty)
						}
						fp := &fence{name: "the prompt", View: p.v}
						fk := &fence{name: "the key", View: key}
						fg := &fence{name: "the graph", View: graphView(name, [2]int{})}
						v := &term.SplitView{DockSize: 9, Dock: term.PosBelow, Docked: fp,
							Flexed: &term.SplitView{Docked: fk, Flexed: fg, Dock: term.PosLeft, DockSize: 12, DockMaxPercent: 20}}
						s := newScreen(cols, rows)
						for i := 0; i < 2; i++ {
							v.SetBox(term.PositionBox{Cols: cols, Rows: rows})
							p.typeKeys("ab\r")
							time.Sleep(100 * time.Millisecond)
							synctest.Wait()
							v.FlushTo(s)
							for _, f := range []*fence{fp, fk, fg} {
								if f.msg != "" {
									return f.msg
								}
							}
							for _, at := range s.sets {
								if at[0] >= cols || at[1] >= rows {
									return fmt.Sprintf("drew at column %d, row %d of the %dx%d screen", at[0], at[1], cols, rows)
								}
							}
						}
						c.Trans(2)
						c.Trace()
						return ""
					})
				})
			}
		}
	}
}

// largeC17: realistic and larger sizes and contents.
func largeC17(h *vh.H) {
	rep := func(n int, f func(i int) textSpan) []textSpan {
		var out []textSpan
		for i := 0; i < n; i++ {
			out = append(out, f(i))
		}
		return out
	}
	many := map[string][]textSpan{}
	for _, n := range []int{25, 99, 100, 101, 128, 256, 257, 1000, 1025, 3000} {
		many[fmt.Sprintf("%d lines", n)] = rep(n, func(i int) textSpan {
			return textSpan{fmt.Sprintf("%d %s\n", i, strings.Repeat("世", i%9)), []tcell.Style{red, bold}[i%2]}
		})
		many[fmt.Sprintf("%d spans", n)] = rep(n, func(i int) textSpan { return textSpan{string(rune('a' + i%26)), []tcell.Style{red, bold}[i%2]} })
		many[fmt.Sprintf("%d lines at once", n)] = []textSpan{{strings.Repeat("x yz\n", n), bold}}
		many[fmt.Sprintf("one line of %d", n)] = []textSpan{{strings.Repeat("0123456789", n/10+1), red}}
		many[fmt.Sprintf("one line of %d wide ones", n)] = []textSpan{{strings.Repeat("世a界", n/3), red}}
	}
	var names []string
	for n := range many {
		names = append(names, n)
	}
	sort.Strings(names)
	sizes := [][2]int{{1, 1}, {9, 1}, {80, 24}, {79, 23}, {81, 25}, {100, 30}, {120, 40}, {132, 43}, {160, 50}, {200, 60}, {255, 61}, {256, 64}, {257, 65}, {300, 100}, {300, 1}, {1, 100}, {12, 91}, {24, 70}, {63, 17}, {128, 33}}
	blankScreen := newScreen(0, 0)
	for _, name := range names {
		for _, sz := range sizes {
			h.Case(func() string { return fmt.Sprintf("text of %s at %v", name, sz) }, func(c *vh.C) {
				tb := &term.TextBox{}
				for _, s := range many[name] {
					tb.WriteString(s.s, s.sty)
				}
				f := &fence{name: "the text box", View: tb}
				for i, b := range []term.PositionBox{{StartCol: 3, StartRow: 1, Cols: sz[0], Rows: sz[1]}, {Cols: sz[0]/2 + 1, Rows: sz[1]}} {
					f.SetBox(b)
					f.FlushTo(blankScreen)
					if msg := f.checkText(many[name]); msg != "" {
						c.Failf("drawing #%d: %s", i+1, msg)
					}
				}
				c.Trans(2)
				c.Trace()
			})
		}
	}
	for _, name := range graphNames {
		for _, spacing := range [][2]int{{0, 0}, {3, 2}} {
			for _, sz := range sizes {
				h.Case(func() string { return fmt.Sprintf("graph %s, spacing %v, at %v", name, spacing, sz) }, func(c *vh.C) {
					f := &fence{name: "the graph", View: graphView(name, spacing)}
					for i, b := range []term.PositionBox{{Cols: sz[0], Rows: sz[1]}, {StartCol: 5, StartRow: 2, Cols: sz[0] + 1, Rows: sz[1] + 1}} {
						f.SetBox(b)
						f.FlushTo(blankScreen)
						if f.msg != "" {
							c.Failf("drawing #%d: %s", i+1, f.msg)
						}
					}
					c.Trans(2)
					c.Trace()
				})
			}
		}
	}
}
