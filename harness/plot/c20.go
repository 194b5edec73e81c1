package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif/vh"
)

func boundsC20(q bool) string {
	c, r := 26, 12
	if !q {
		c, r = 60, 20
	}
	return fmt.Sprintf("15 time spans x 22 value ranges (flat, negative, nearly flat, denormal, overflowing, none) x 0-5 points x 6 densities x every size of <=%dx%d x 3 labelers; axis drawing of all of them; the graph widget for every size; 5 realistic spans and ranges on every width up to %d, 10 heights up to 200", c, r, map[bool]int{true: 300, false: 700}[q])
}

type span struct{ lo, hi int64 }

type labeler struct {
	name string
	dom  func(int64) string
	rng  func(float64) string
}

func runC20(h *vh.H) {
	spans := []span{{0, 0}, {0, 1}, {0, 2}, {0, 7}, {0, 17}, {-5, 5}, {-20, -3}, {1600000000000, 1600000000000}, {1600000000000, 1600000060000}, {1600000000000, 1600000000003},
		{0, 1 << 62}, {-1 << 62, 1 << 62}, {math.MinInt64, math.MinInt64 + 3}, {math.MaxInt64 - 3, math.MaxInt64}, {math.MinInt64, math.MaxInt64}}
	ranges := [][2]float64{{0, 0}, {0, 1}, {-1, 1}, {0.1, 0.3}, {-7, -3}, {3, 3}, {-3, -3}, {1e16, 1e16}, {1e16, 1e16 + 2}, {1e16, 1e16 + 8}, {1, 1 + 0x1p-52}, {1, 1 + 0x1p-50},
		{0, 5e-324}, {-5e-324, 5e-324}, {0, 1e-310}, {0, math.MaxFloat64}, {-math.MaxFloat64, math.MaxFloat64}, {-1e308, 1e308}, {-math.MaxFloat64, 0}, {1e-300, 1e300}, {math.MaxFloat64, math.MaxFloat64}, {math.NaN(), math.NaN()}}
	labelers := []labeler{
		{"plain", func(v int64) string { return fmt.Sprint(v % 1000) }, func(v float64) string { return fmt.Sprintf("%.1g", v) }},
		{"none", func(v int64) string { return "" }, func(v float64) string { return "" }},
		{"varying", func(v int64) string { return strings.Repeat("d", int(uint64(v)%4)) }, func(v float64) string { return strings.Repeat("r", 1+int(math.Float64bits(v)%3)) }},
	}
	densities := []int{1, 2, 3, 5, 10, 100}
	maxC, maxR := h.Pick(26, 60), h.Pick(12, 20)

	for _, sp := range spans {
		for _, rg := range ranges {
			sp, rg := sp, rg
			if h.Stop() {
				return
			}
			h.Case(func() string { return fmt.Sprintf("time %d..%d values %g..%g", sp.lo, sp.hi, rg[0], rg[1]) }, func(c *vh.C) {
				for n := 1; n <= 5; n++ {
					if n == 1 && (sp.lo != sp.hi || rg[0] != rg[1]) {
						continue
					}
					// times and values go from one end to the other
					var pts []pt
					for i := 0; i < n; i++ {
						p := pt{sp.lo, rg[0]}
						if i > 0 {
							p = pt{sp.hi, rg[1]}
							if i < n-1 {
								p.x = sp.lo + int64(uint64(sp.hi-sp.lo)/2)
							}
						}
						pts = append(pts, p)
					}
					sets := []plot.SeriesSet{{mk(1, pts...)}}
					if n == 3 {
						// as two series
						sets = append(sets, plot.SeriesSet{mk(1, pts[0]), mk(2, pts[1:]...)})
					}
					for _, set := range sets {
						g := plot.DataToPlatonicGraph(set, plot.AutoAxes())
						for di, d := range densities {
							for li, l := range labelers {
								if h.Quick() && (di+li+n)%3 != 0 {
									continue
								}
								c.Touch()
								for cols := 0; cols <= maxC; cols++ {
									for rows := 0; rows <= maxR; rows++ {
										if h.Quick() && rows > 6 && (rows+cols)%3 != 0 {
											continue
										}
										ticks(c, g, cols, rows, d, l)
									}
								}
							}
						}
					}
				}
			})
			h.Case(func() string { return fmt.Sprintf("widget time %d..%d values %g..%g", sp.lo, sp.hi, rg[0], rg[1]) }, func(c *vh.C) {
				g := plot.DataToPlatonicGraph(plot.SeriesSet{mk(1, pt{sp.lo, rg[0]}, pt{sp.hi, rg[1]})}, plot.AutoAxes())
				for _, l := range labelers {
					for cols := 0; cols <= 24; cols += 1 {
						for rows := 0; rows <= 9; rows++ {
							widgetAxes(c, g, 1, 2, cols, rows, 0, l)
							widgetAxes(c, g, 0, 0, cols, rows, 4, l)
						}
					}
				}
			})
		}
	}
	for cols := 0; cols <= h.Pick(300, 700); cols++ {
		h.Case(func() string { return fmt.Sprintf("realistic axes, %d columns", cols) }, func(c *vh.C) {
			for ri, rg := range [][2]float64{{0, 1}, {0.1, 0.3}, {0, 17}, {8e9, 8.1e9}, {-7, 1e6}} {
				sp := spans[[]int{8, 4, 8, 9, 3}[ri]]
				if ri == 3 {
					sp = span{1600000000000, 1600000000000 + 86400000}
				}
				g := plot.DataToPlatonicGraph(plot.SeriesSet{mk(1, pt{sp.lo, rg[0]}, pt{sp.hi, rg[1]})}, plot.AutoAxes())
				for _, rows := range []int{1, 5, 20, 24, 37, 50, 60, 99, 128, 200} {
					for _, d := range densities {
						if !h.Quick() || (cols+rows+d+ri)%3 == 0 {
							ticks(c, g, cols, rows, d, labelers[(ri+cols)%3])
						}
					}
					if cols < 200 && rows <= 60 && (cols+rows)%h.Pick(11, 2) == 0 {
						widgetAxes(c, g, 1, 2, cols, rows, 0, labelers[(ri+rows)%3])
					}
				}
			}
		})
	}
	for cols := 0; cols <= maxC; cols++ {
		cols := cols
		h.Case(func() string { return fmt.Sprintf("nothing to draw, %d columns", cols) }, func(c *vh.C) {
			for _, set := range []plot.SeriesSet{nil, {mk(1)}, {mk(1), mk(2)}} {
				g := plot.DataToPlatonicGraph(set, plot.AutoAxes())
				for rows := 0; rows <= maxR; rows++ {
					for _, d := range densities {
						ticks(c, g, cols, rows, d, labelers[2])
					}
					widgetAxes(c, g, 1, 1, cols, rows, 0, labelers[2])
				}
			}
		})
	}
}

func ticks(c *vh.C, g *plot.PlatonicGraph, cols, rows, density int, l labeler) *plot.ScreenTicks {
	c.Trans(1)
	c.Trace()
	t := plot.EvenlySpacedTicks(g, plot.ScreenSize{Cols: plot.Column(cols), Rows: plot.Row(rows)},
		plot.TickScaling{RangeScale: ident, RangeDensity: density, DomainDensity: density},
		plot.Labeling{DomainLabeler: l.dom, RangeLabeler: l.rng, LineSize: 1})
	what := func(s string, args ...interface{}) {
		c.Failf("%dx%d density %d labels %s: %s; ticks %+v", cols, rows, density, l.name, fmt.Sprintf(s, args...), *t)
	}
	icols, irows := int(t.InnerGraphSize.Cols), int(t.InnerGraphSize.Rows)
	mcols, mrows := int(t.MarginCols), int(t.MarginRows)
	if mcols < 1 || mrows < 1 {
		what("no room for the axes")
	}
	if fits := cols > mcols && rows > mrows; fits && (icols != cols-mcols || irows != rows-mrows) || !fits && icols > 0 && irows > 0 || icols < 0 || irows < 0 {
		what("the graph's part and the margins don't fill the canvas")
	}
	if len(t.DomainTicks) > cols+3 || len(t.RangeTicks) > cols+3 {
		what("%d and %d ticks", len(t.DomainTicks), len(t.RangeTicks))
	}
	visible := icols > 0 && irows > 0
	empty := g.DomainMin > g.DomainMax
	novals := g.RangeMin > g.RangeMax
	if !visible {
		return t
	}
	// times
	if !empty {
		hasMin, hasMax := false, false
		for i, d := range t.DomainTicks {
			if d.Label != l.dom(d.Value) {
				what("the tick at %d is labelled %q", d.Value, d.Label)
			}
			if len(d.Label) > mrows-1 {
				what("label %q doesn't fit", d.Label)
			}
			if d.Value < g.DomainMin || d.Value > g.DomainMax {
				what("tick %d is outside %d..%d", d.Value, g.DomainMin, g.DomainMax)
			}
			want := fracT(d.Value, g.DomainMin, g.DomainMax) * float64(icols-1)
			if math.Abs(want-float64(d.Col)) > 0.5+eps {
				what("tick %d is in column %d, its place is %.3f", d.Value, d.Col, want)
			}
			if i > 0 && (d.Value <= t.DomainTicks[i-1].Value || d.Col <= t.DomainTicks[i-1].Col) {
				what("ticks at %d and %d", t.DomainTicks[i-1].Value, d.Value)
			}
			hasMin = hasMin || d.Col == 0
			hasMax = hasMax || int(d.Col) == icols-1 || g.DomainMin == g.DomainMax
		}
		if !hasMin || !hasMax {
			what("no tick at the minimum or maximum time")
		}
	}
	// values
	if novals {
		if len(t.RangeTicks) > 0 {
			what("ticks without values")
		}
		return t
	}
	hasMin, hasMax, dup := false, false, false
	for i, r := range t.RangeTicks {
		if r.Label != l.rng(r.Value) {
			what("the tick at %g is labelled %q", r.Value, r.Label)
		}
		if len(r.Label) > mcols-1 {
			what("label %q doesn't fit", r.Label)
		}
		if !(r.Value >= g.RangeMin && r.Value <= g.RangeMax) {
			what("tick %g is outside %g..%g", r.Value, g.RangeMin, g.RangeMax)
		}
		fromTop := float64(irows-1) * (1 - frac(r.Value, g.RangeMin, g.RangeMax))
		if math.Abs(fromTop-float64(r.Row)) > 0.5+eps || r.Row < 0 || int(r.Row) >= irows {
			what("tick %g is in row %d from the top, its place is %.3f", r.Value, r.Row, fromTop)
		}
		if i > 0 {
			p := t.RangeTicks[i-1]
			if r.Value <= p.Value || r.Row > p.Row {
				what("ticks at %g and %g", p.Value, r.Value)
			}
			dup = dup || r.Row == p.Row
		}
		hasMin = hasMin || int(r.Row) == irows-1
		hasMax = hasMax || r.Row == 0 || g.RangeMin == g.RangeMax
	}
	if !hasMin {
		what("no tick at the smallest value")
	}
	if dup {
		c.Known("mirrored-tick", "%dx%d density %d: several ticks on one line", cols, rows, density)
	}
	if !hasMax {
		// known: a tick is dropped if the last one is on its mirror image's line
		if n := len(t.RangeTicks); n > 0 && int(t.RangeTicks[n-1].Row) == irows-1 {
			c.Known("mirrored-tick", "%dx%d density %d: no tick at the largest value", cols, rows, density)
		} else {
			what("no tick at the largest value")
		}
	}
	checkAxesDrawn(c, t, cols, rows)
	return t
}

type axisCell struct {
	kind plot.AxisCellKind
	r    rune
}

// wantAxes is what the axes look like.  several marks rows with more than one tick.
func wantAxes(t *plot.ScreenTicks) (cells map[cellPos]axisCell, several map[int]bool) {
	cells, several = map[cellPos]axisCell{}, map[int]bool{}
	icols, irows := int(t.InnerGraphSize.Cols), int(t.InnerGraphSize.Rows)
	ax := int(t.MarginCols) - 1
	for r := 0; r < irows; r++ {
		cells[cellPos{r, ax}] = axisCell{kind: plot.YAxisKind}
	}
	for col := 0; col < icols; col++ {
		cells[cellPos{irows, ax + 1 + col}] = axisCell{kind: plot.XAxisKind}
	}
	seen := map[int]bool{}
	for _, tick := range t.RangeTicks {
		row := int(tick.Row)
		several[row] = seen[row]
		seen[row] = true
		cells[cellPos{row, ax}] = axisCell{kind: plot.RangeTickKind}
		for i, r := range tick.Label {
			cells[cellPos{row, ax - len(tick.Label) + i}] = axisCell{plot.LabelKind, r}
		}
	}
	for _, tick := range t.DomainTicks {
		// a tick is drawn one column left of its data
		col := ax + int(tick.Col)
		cells[cellPos{irows, col}] = axisCell{kind: plot.DomainTickKind}
		for i, r := range tick.Label {
			cells[cellPos{irows + 1 + i, col}] = axisCell{plot.LabelKind, r}
		}
	}
	cells[cellPos{irows, ax}] = axisCell{kind: plot.AxisCornerKind}
	return cells, several
}

func checkAxesDrawn(c *vh.C, t *plot.ScreenTicks, cols, rows int) {
	want, several := wantAxes(t)
	got := map[cellPos]axisCell{}
	plot.DrawAxes(t, func(row plot.Row, col plot.Column, r rune, kind plot.AxisCellKind) {
		if row < 0 || int(row) >= rows || col < 0 || int(col) >= cols {
			c.Failf("axis cell at row %d column %d of %dx%d: %+v", row, col, cols, rows, *t)
		}
		if kind != plot.LabelKind {
			r = 0
		}
		got[cellPos{int(row), int(col)}] = axisCell{kind, r}
	})
	compareAxes(c, want, got, several, t)
}

func compareAxes(c *vh.C, want, got map[cellPos]axisCell, several map[int]bool, t *plot.ScreenTicks) {
	for p, w := range want {
		if g, ok := got[p]; (!ok || g != w) && !(w.kind == plot.LabelKind && several[p.row]) {
			c.Failf("axis cell row %d column %d is %v %q, want %v %q: %+v", p.row, p.col, g.kind, g.r, w.kind, w.r, *t)
		}
	}
	for p, g := range got {
		if _, ok := want[p]; !ok {
			c.Failf("axis cell row %d column %d: unexpected %v %q: %+v", p.row, p.col, g.kind, g.r, *t)
		}
	}
}

var axisRunes = map[rune]plot.AxisCellKind{'┯': plot.DomainTickKind, '┨': plot.RangeTickKind, '┃': plot.YAxisKind, '━': plot.XAxisKind, '┗': plot.AxisCornerKind}

func widgetAxes(c *vh.C, g *plot.PlatonicGraph, x0, y0, cols, rows, spacing int, l labeler) {
	gv := &term.GraphView{Graph: g, DomainLabeler: l.dom, RangeLabeler: l.rng, DomainTickSpacing: spacing, RangeTickSpacing: spacing}
	gv.SetBox(term.PositionBox{StartCol: x0, StartRow: y0, Cols: cols, Rows: rows})
	W, H := x0+cols+2, y0+rows+2
	sim.SetSize(W, H)
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			sim.SetContent(x, y, untouched, nil, tcell.StyleDefault)
		}
	}
	gv.FlushTo(sim)
	if spacing == 0 {
		spacing = 10
	}
	t := ticks(c, g, cols, rows, spacing, l)
	visible := t.InnerGraphSize.Cols > 0 && t.InnerGraphSize.Rows > 0
	got := map[cellPos]axisCell{}
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			r, _, _, _ := sim.GetContent(x, y)
			if r == untouched {
				continue
			}
			p := cellPos{y - y0, x - x0}
			if !visible || p.row < 0 || p.row >= rows || p.col < 0 || p.col >= cols {
				c.Failf("%dx%d at %d,%d: %q drawn at %d,%d", cols, rows, x0, y0, r, x, y)
			}
			if p.col >= int(t.MarginCols) && p.row < int(t.InnerGraphSize.Rows) {
				continue // the graph
			}
			if kind, ok := axisRunes[r]; ok {
				got[p] = axisCell{kind: kind}
			} else {
				got[p] = axisCell{plot.LabelKind, r}
			}
		}
	}
	if visible && g.DomainMin <= g.DomainMax {
		want, several := wantAxes(t)
		compareAxes(c, want, got, several, t)
	}
}
