package main

import (
	"fmt"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif/vh"
)

// pane records what a split tells it.
type pane struct {
	boxes []term.PositionBox
	flush int
}

func (p *pane) SetBox(b term.PositionBox)   { p.boxes = append(p.boxes, b) }
func (p *pane) FlushTo(screen tcell.Screen) { p.flush++ }

type splitCfg struct {
	dock     term.DockPos
	size, pc int
}

func (s splitCfg) String() string {
	return fmt.Sprintf("%s size %d max %d%%", [...]string{"below", "above", "left", "right"}[s.dock], s.size, s.pc)
}

func (s splitCfg) view(docked, flexed term.Resizable) *term.SplitView {
	return &term.SplitView{Dock: s.dock, DockSize: s.size, DockMaxPercent: s.pc, Docked: docked, Flexed: flexed}
}

// boxes are the areas of the docked and the other pane.
func (s splitCfg) boxes(b term.PositionBox) (docked, flexed term.PositionBox) {
	total := b.Rows
	if s.dock == term.PosLeft || s.dock == term.PosRight {
		total = b.Cols
	}
	n := max(0, min(s.size, total-1))
	if s.pc > 0 {
		n = min(n, total*s.pc/100)
	}
	docked, flexed = b, b
	switch s.dock {
	case term.PosBelow:
		docked.Rows, flexed.Rows = n, b.Rows-n
		docked.StartRow += b.Rows - n
	case term.PosAbove:
		docked.Rows, flexed.Rows = n, b.Rows-n
		flexed.StartRow += n
	case term.PosLeft:
		docked.Cols, flexed.Cols = n, b.Cols-n
		flexed.StartCol += n
	case term.PosRight:
		docked.Cols, flexed.Cols = n, b.Cols-n
		docked.StartCol += b.Cols - n
	}
	return docked, flexed
}

// same compares boxes; where an empty one starts doesn't matter.
func same(a, b term.PositionBox) bool {
	if a.Cols != b.Cols || a.Rows != b.Rows {
		return false
	}
	return a == b || a.Cols == 0 || a.Rows == 0
}

func (p *pane) is(c *vh.C, what string, want term.PositionBox, n int) {
	if len(p.boxes) != n {
		c.Failf("%s was given %d boxes, want %d: %v", what, len(p.boxes), n, p.boxes)
	}
	if got := p.boxes[n-1]; !same(got, want) {
		c.Failf("%s was given %+v, want %+v", what, got, want)
	}
}

func boundsC18(q bool) string {
	return fmt.Sprintf("every area of 0-%d x 0-%d cells at 2 offsets, 4 dock sides, dock sizes -1..%d, 11 percentages, resized once more; every percentage and 15 dock sizes for every length up to %d; nested splits (in either pane, 2 levels, 4 sides x 4 sizes x 3 percentages at each level)", lim(q), lim(q), lim(q)+2, map[bool]int{true: 300, false: 1100}[q])
}

func lim(q bool) int {
	if q {
		return 12
	}
	return 30
}

func runC18(h *vh.H) {
	n := lim(h.Quick())
	pcs := []int{-5, 0, 1, 10, 20, 25, 33, 50, 99, 100, 150}
	s := newScreen(1, 1)
	for cols := 0; cols <= n; cols++ {
		for rows := 0; rows <= n; rows++ {
			for dock := 0; dock < 4; dock++ {
				for size := -1; size <= n+2; size++ {
					for _, pc := range pcs {
						for _, off := range [][2]int{{0, 0}, {3, 2}} {
							if h.Stop() {
								return
							}
							cfg := splitCfg{term.DockPos(dock), size, pc}
							b := term.PositionBox{StartCol: off[0], StartRow: off[1], Cols: cols, Rows: rows}
							h.Case(func() string { return fmt.Sprintf("%v in %+v", cfg, b) }, func(c *vh.C) {
								d, f := &pane{}, &pane{}
								v := cfg.view(d, f)
								v.SetBox(b)
								wd, wf := cfg.boxes(b)
								d.is(c, "the docked pane", wd, 1)
								f.is(c, "the other pane", wf, 1)
								// once more with another size
								b2 := term.PositionBox{StartCol: off[1], StartRow: off[0], Cols: rows, Rows: cols + 1}
								v.SetBox(b2)
								wd, wf = cfg.boxes(b2)
								d.is(c, "the docked pane (2nd time)", wd, 2)
								f.is(c, "the other pane (2nd time)", wf, 2)
								if v.FlushTo(s); d.flush != 1 || f.flush != 1 {
									c.Failf("drawing the split drew the docked pane %d times and the other %d times", d.flush, f.flush)
								}
								// panes that needn't be drawn
								st := &term.StaticResizable{}
								d, f = &pane{}, &pane{}
								for i, v := range []*term.SplitView{cfg.view(st, f), cfg.view(d, st), cfg.view(st, st)} {
									v.SetBox(b)
									if v.FlushTo(s); i == 1 && d.flush != 1 || i == 0 && f.flush != 1 {
										c.Failf("drawing a split with a static pane drew the docked pane %d times and the other %d times", d.flush, f.flush)
									}
								}
								c.Trans(6)
								c.Trace()
								c.State(fmt.Sprint(wd, wf))
							})
						}
					}
				}
			}
		}
	}
	// every percentage of every realistic length
	for dock := 0; dock < 4; dock++ {
		for total := 0; total <= h.Pick(300, 1100); total++ {
			if h.Stop() {
				return
			}
			h.Case(func() string { return fmt.Sprintf("dock %d of %d, every percentage", dock, total) }, func(c *vh.C) {
				for pc := -1; pc <= 101; pc++ {
					for _, size := range []int{0, 1, 3, 9, 10, 20, 50, 99, 100, 101, 128, 250, total - 1, total, 1 << 20} {
						cfg := splitCfg{term.DockPos(dock), size, pc}
						b := term.PositionBox{StartCol: 7, StartRow: 1, Cols: total, Rows: 5}
						if dock := term.DockPos(dock); dock == term.PosAbove || dock == term.PosBelow {
							b.Cols, b.Rows = b.Rows, b.Cols
						}
						d, f := &pane{}, &pane{}
						cfg.view(d, f).SetBox(b)
						wd, wf := cfg.boxes(b)
						d.is(c, fmt.Sprintf("%v in %+v: the docked pane", cfg, b), wd, 1)
						f.is(c, fmt.Sprintf("%v in %+v: the other pane", cfg, b), wf, 1)
						c.Trans(1)
					}
				}
				c.Trace()
			})
		}
	}
	// nested
	var cfgs []splitCfg
	for dock := 0; dock < 4; dock++ {
		for _, size := range []int{0, 1, 3, 9} {
			for _, pc := range []int{0, 20, 50} {
				cfgs = append(cfgs, splitCfg{term.DockPos(dock), size, pc})
			}
		}
	}
	step := h.Pick(3, 1)
	for cols := 0; cols <= n; cols += step {
		for rows := 0; rows <= n; rows += step {
			for _, outer := range cfgs {
				for _, inner := range cfgs {
					for _, inDock := range []bool{true, false} {
						if h.Stop() {
							return
						}
						b := term.PositionBox{StartCol: 1, StartRow: 4, Cols: cols, Rows: rows}
						h.Case(func() string {
							return fmt.Sprintf("%v with, in its docked pane=%v, %v; in %+v", outer, inDock, inner, b)
						}, func(c *vh.C) {
							p1, p2, p3 := &pane{}, &pane{}, &pane{}
							in := inner.view(p1, p2)
							od, of := outer.boxes(b)
							var v *term.SplitView
							var w1, w2, w3 term.PositionBox
							if inDock {
								v = outer.view(in, p3)
								w1, w2 = inner.boxes(od)
								w3 = of
							} else {
								v = outer.view(p3, in)
								w1, w2 = inner.boxes(of)
								w3 = od
							}
							v.SetBox(b)
							p1.is(c, "the inner docked pane", w1, 1)
							p2.is(c, "the inner other pane", w2, 1)
							p3.is(c, "the outer pane", w3, 1)
							v.FlushTo(s)
							if p1.flush != 1 || p2.flush != 1 || p3.flush != 1 {
								c.Failf("panes were drawn %d, %d, %d times", p1.flush, p2.flush, p3.flush)
							}
							c.Trans(2)
							c.Trace()
						})
					}
				}
			}
		}
	}
}
