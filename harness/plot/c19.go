package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif/vh"
)

func boundsC19(q bool) string {
	n, m := 3, 2
	if !q {
		n, m = 4, 3
	}
	return fmt.Sprintf("canvases up to 10x8 dots with the axes scaled by 1:1, 5:7 and 9:4; every series of <=%d points on a grid (several per column included); every pair of series of <=%d points and triple of 2-point series on coarser grids; every series of <=3 points over 17 extreme values (NaN, infinities, denormals, largest) and 8 extreme times; every dot of every canvas of <=4x3 characters and every pattern of dots of one character; all through axes, scaling, rendering and braille drawing, and through the graph widget at every box size of <=12x9; 10 shapes of series of up to 1000 points, up to 300 series, on 12 canvases and boxes of realistic sizes", n, m)
}

type canvas struct {
	cols, rows int
	maxX       int64
	maxY       float64
}

func runC19(h *vh.H) {
	// one series: every sequence of points
	for _, cv := range []canvas{{6, 8, 5, 7}, {6, 8, 7, 4}, {4, 4, 9, 5}, {8, 4, 7, 3}, {1, 1, 2, 2}, {5, 3, 4, 2}, {10, 8, 9, 3}} {
		grid := []pt{}
		for x := int64(0); x <= cv.maxX; x++ {
			for y := 0.0; y <= cv.maxY; y++ {
				grid = append(grid, pt{x, y})
			}
		}
		base := plot.PlatonicAxes{DomainMin: 0, DomainMax: cv.maxX, RangeMin: 0, RangeMax: cv.maxY}
		auto := plot.AutoAxes()
		max := h.Pick(3, 4)
		if len(grid) > 40 {
			max = 3
		}
		var rec func(cur []pt)
		rec = func(cur []pt) {
			if h.Stop() {
				return
			}
			if len(cur) == 2 || len(cur) < 2 && max < 3 {
				// one case per pair of first points
				cp := append([]pt(nil), cur...)
				h.Case(func() string { return fmt.Sprintf("%dx%d %v and all continuations", cv.cols, cv.rows, cp) }, func(c *vh.C) {
					var in func(cur []pt)
					in = func(cur []pt) {
						set := plot.SeriesSet{mk(1, cur...)}
						checkGraph(c, set, base, cv.cols, cv.rows)
						checkGraph(c, set, auto, cv.cols, cv.rows)
						if len(cur) == max {
							return
						}
						for _, p := range grid {
							if p.x >= cur[len(cur)-1].x {
								in(append(cur[:len(cur):len(cur)], p))
							}
						}
					}
					in(cp)
				})
				return
			}
			for _, p := range grid {
				if len(cur) == 0 || p.x >= cur[len(cur)-1].x {
					rec(append(cur[:len(cur):len(cur)], p))
				}
			}
		}
		rec(nil)
		h.Case(func() string { return fmt.Sprintf("%dx%d single points", cv.cols, cv.rows) }, func(c *vh.C) {
			checkGraph(c, plot.SeriesSet{}, base, cv.cols, cv.rows)
			checkGraph(c, plot.SeriesSet{}, auto, cv.cols, cv.rows)
			checkGraph(c, plot.SeriesSet{mk(1)}, base, cv.cols, cv.rows)
			checkGraph(c, plot.SeriesSet{mk(1)}, auto, cv.cols, cv.rows)
			for _, p := range grid {
				checkGraph(c, plot.SeriesSet{mk(1, p)}, base, cv.cols, cv.rows)
				checkGraph(c, plot.SeriesSet{mk(1, p)}, auto, cv.cols, cv.rows)
			}
		})
	}

	largeC19(h)

	// several series
	ids := []plot.SeriesId{1, 256, 65535}
	for _, cv := range []canvas{{4, 4, 3, 3}, {4, 4, 4, 2}, {2, 4, 2, 3}, {8, 4, 2, 2}} {
		var lines [][]pt
		var rec func(cur []pt, max int)
		rec = func(cur []pt, max int) {
			lines = append(lines, append([]pt(nil), cur...))
			if len(cur) == max {
				return
			}
			for x := int64(0); x <= cv.maxX; x++ {
				for y := 0.0; y <= cv.maxY; y++ {
					if len(cur) == 0 || x > cur[len(cur)-1].x {
						rec(append(cur[:len(cur):len(cur)], pt{x, y}), max)
					}
				}
			}
		}
		rec(nil, h.Pick(2, 3))
		for _, a := range lines {
			a := a
			if h.Stop() {
				return
			}
			h.Case(func() string { return fmt.Sprintf("%dx%d %v with every other series", cv.cols, cv.rows, a) }, func(c *vh.C) {
				base := plot.PlatonicAxes{DomainMin: 0, DomainMax: cv.maxX, RangeMin: 0, RangeMax: cv.maxY}
				for _, b := range lines {
					checkGraph(c, plot.SeriesSet{mk(ids[0], a...), mk(ids[1], b...)}, base, cv.cols, cv.rows)
					checkGraph(c, plot.SeriesSet{mk(ids[2], a...), mk(ids[0], b...)}, plot.AutoAxes(), cv.cols, cv.rows)
				}
				c.Touch()
				if len(a) == 2 {
					for i, b := range lines {
						if len(b) != 2 {
							continue
						}
						for j, d := range lines {
							if len(d) == 2 && (i+j)%h.Pick(7, 1) == 0 {
								checkGraph(c, plot.SeriesSet{mk(ids[0], a...), mk(ids[1], b...), mk(ids[2], d...)}, base, cv.cols, cv.rows)
							}
						}
					}
				}
			})
		}
	}

	// extreme values and times
	ys := []float64{0, -1, 1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 1e308, -1e308, 5e-324, -5e-324, 1e-310, 2.2250738585072014e-308, 1 + 0x1p-52, 1e16, 1e16 + 2}
	xs := []int64{math.MinInt64, -1 << 62, -1, 0, 1, 1600000000000, 1 << 62, math.MaxInt64}
	vh.Product([]int{len(xs), len(ys), len(xs)}, func(ix []int) {
		x0, y0, x1 := xs[ix[0]], ys[ix[1]], xs[ix[2]]
		if x1 < x0 {
			return
		}
		h.Case(func() string { return fmt.Sprintf("extremes %d=%g %d=...", x0, y0, x1) }, func(c *vh.C) {
			for _, size := range []struct{ cols, rows int }{{1, 1}, {4, 4}, {10, 8}} {
				for _, y1 := range ys {
					checkGraph(c, plot.SeriesSet{mk(7, pt{x0, y0}, pt{x1, y1})}, plot.AutoAxes(), size.cols, size.rows)
					for _, x2 := range xs {
						if x2 < x1 {
							continue
						}
						for _, y2 := range ys {
							checkGraph(c, plot.SeriesSet{mk(7, pt{x0, y0}, pt{x1, y1}, pt{x2, y2})}, plot.AutoAxes(), size.cols, size.rows)
						}
					}
				}
			}
			for _, y1 := range ys {
				set := plot.SeriesSet{mk(7, pt{x0, y0}, pt{x1, y1})}
				checkWidget(c, set, 2, 1, 30, 10)
			}
		})
	})

	// braille: every dot
	for _, sz := range []struct{ cols, rows int }{{1, 1}, {2, 1}, {1, 2}, {3, 2}, {4, 3}} {
		sz := sz
		h.Case(func() string { return fmt.Sprintf("every dot of %dx%d characters", sz.cols, sz.rows) }, func(c *vh.C) {
			size := plot.BrailleCellScreenSize(plot.ScreenSize{Rows: plot.Row(sz.rows), Cols: plot.Column(sz.cols)})
			if int(size.Rows) != 4*sz.rows || int(size.Cols) != 2*sz.cols {
				c.Failf("a canvas of %dx%d characters has %dx%d dots", sz.cols, sz.rows, size.Cols, size.Rows)
			}
			for r := 0; r < 4*sz.rows; r++ {
				for col := 0; col < 2*sz.cols; col++ {
					g := &plot.ScreenGraph{ScreenSize: size, Series: []plot.ScreenSeries{{Id: 3, Points: []plot.PixelPoint{{Row: plot.Row(r), Col: plot.Column(col)}}}}}
					compareBraille(c, g, map[cellPos]map[plot.SeriesId]bool{{r, col}: {3: true}}, sz.cols, sz.rows)
				}
			}
		})
	}
	h.Case(func() string { return "every pattern of one character" }, func(c *vh.C) {
		size := plot.ScreenSize{Rows: 4, Cols: 2}
		for mask := 0; mask < 256; mask++ {
			g := &plot.ScreenGraph{ScreenSize: size}
			want := map[cellPos]map[plot.SeriesId]bool{}
			for b := 0; b < 8; b++ {
				if mask&(1<<b) != 0 {
					id := plot.SeriesId(b + 1)
					g.Series = append(g.Series, plot.ScreenSeries{Id: id, Points: []plot.PixelPoint{{Row: plot.Row(b / 2), Col: plot.Column(b % 2)}}})
					want[cellPos{b / 2, b % 2}] = map[plot.SeriesId]bool{id: true}
				}
			}
			compareBraille(c, g, want, 1, 1)
		}
	})

	// the widget
	graphs := []plot.SeriesSet{
		{}, {mk(1)}, {mk(1, pt{0, 0})}, {mk(1, pt{0, 0}, pt{9, 3})}, {mk(1, pt{0, 3}, pt{9, 0})}, {mk(1, pt{5, 2}, pt{9, 2})},
		{mk(1, pt{0, 0}, pt{1, 5}, pt{2, 0})}, {mk(2, pt{0, 1}, pt{6, 1}), mk(300, pt{0, 0}, pt{3, 2}, pt{7, 9})},
		{mk(65535, pt{0, math.NaN()}, pt{3, 1}), mk(4, pt{1, math.Inf(1)})},
	}
	for gi, set := range graphs {
		set := set
		for cols := 0; cols <= 12; cols++ {
			cols := cols
			h.Case(func() string { return fmt.Sprintf("widget graph %d, %d columns", gi, cols) }, func(c *vh.C) {
				for rows := 0; rows <= 9; rows++ {
					for _, off := range [][2]int{{0, 0}, {2, 1}} {
						checkWidget(c, set, off[0], off[1], cols, rows)
					}
				}
			})
		}
	}
}

// expected says which cells may and must be marked.
type line struct {
	id         plot.SeriesId
	r0, c0     int
	r1, c1     int
	falling    bool
	knownCells map[cellPos]bool // what the known finding draws instead
}

// near tells whether the cell is one of those nearest to the line.
func (l *line) near(p cellPos) bool {
	rise, run := float64(l.r1-l.r0), float64(l.c1-l.c0)
	if math.Abs(run) > math.Abs(rise) {
		if p.col < l.c0 || p.col > l.c1 {
			return false
		}
		exact := float64(l.r0) + rise/run*float64(p.col-l.c0)
		return math.Abs(exact-float64(p.row)) <= 0.5+eps
	}
	lo, hi := l.r0, l.r1
	if lo > hi {
		lo, hi = hi, lo
	}
	if p.row < lo || p.row > hi {
		return false
	}
	if rise == 0 {
		return p.col == l.c0
	}
	exact := float64(l.c0) + run/rise*float64(p.row-l.r0)
	return math.Abs(exact-float64(p.col)) <= 0.5+eps
}

// joined tells whether the marks join the line's ends without a gap.
func (l *line) joined(marks map[cellPos]map[plot.SeriesId]bool) bool {
	on := func(p cellPos) bool { return marks[p][l.id] && l.near(p) }
	start := cellPos{l.r0, l.c0}
	if !on(start) {
		return false
	}
	seen := map[cellPos]bool{start: true}
	todo := []cellPos{start}
	for len(todo) > 0 {
		p := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if p == (cellPos{l.r1, l.c1}) {
			return true
		}
		for dr := -1; dr <= 1; dr++ {
			for dc := -1; dc <= 1; dc++ {
				q := cellPos{p.row + dr, p.col + dc}
				if !seen[q] && on(q) {
					seen[q] = true
					todo = append(todo, q)
				}
			}
		}
	}
	return false
}

// checkGraph draws the series and judges the result.
func checkGraph(c *vh.C, set plot.SeriesSet, base plot.PlatonicAxes, cols, rows int) {
	c.Trans(1)
	c.Trace()
	g := plot.DataToPlatonicGraph(set, base)
	checkAxes(c, set, base, g)
	size := plot.ScreenSize{Rows: plot.Row(rows), Cols: plot.Column(cols)}
	sg := g.ToScreen(ident, size)
	marks := checkScreen(c, set, g, sg, cols, rows)
	if cols%2 == 0 && rows%4 == 0 {
		compareBraille(c, sg, marks, cols/2, rows/4)
	}
}

func checkAxes(c *vh.C, set plot.SeriesSet, base plot.PlatonicAxes, g *plot.PlatonicGraph) {
	want, wantF := base, base
	for _, s := range set {
		for _, p := range s.Points() {
			want.DomainMin, want.DomainMax = min(want.DomainMin, p.X()), max(want.DomainMax, p.X())
			if finite(p.Y()) {
				wantF.DomainMin, wantF.DomainMax = min(wantF.DomainMin, p.X()), max(wantF.DomainMax, p.X())
				want.RangeMin, want.RangeMax = min(want.RangeMin, p.Y()), max(want.RangeMax, p.Y())
			}
		}
	}
	if g.RangeMin != want.RangeMin || g.RangeMax != want.RangeMax {
		c.Failf("%s: the range is %g..%g, the finite values are %g..%g", show(set), g.RangeMin, g.RangeMax, want.RangeMin, want.RangeMax)
	}
	// points that can't be drawn may or may not widen the domain
	if g.DomainMin != want.DomainMin && g.DomainMin != wantF.DomainMin || g.DomainMax != want.DomainMax && g.DomainMax != wantF.DomainMax {
		c.Failf("%s: the domain is %d..%d, the times are %d..%d", show(set), g.DomainMin, g.DomainMax, want.DomainMin, want.DomainMax)
	}
	if len(g.Series) != len(set) {
		c.Failf("%s: the graph has %d series", show(set), len(g.Series))
	}
}

// checkScreen judges a screen graph, renders it, judges that, and returns the marks.
func checkScreen(c *vh.C, set plot.SeriesSet, g *plot.PlatonicGraph, sg *plot.ScreenGraph, cols, rows int) map[cellPos]map[plot.SeriesId]bool {
	if len(sg.Series) != len(set) {
		c.Failf("%s: %d series on the screen", show(set), len(sg.Series))
	}
	var lines []*line
	points := map[cellPos]map[plot.SeriesId]bool{}
	add := func(m map[cellPos]map[plot.SeriesId]bool, p cellPos, id plot.SeriesId) {
		if m[p] == nil {
			m[p] = map[plot.SeriesId]bool{}
		}
		m[p][id] = true
	}
	for i, s := range set {
		out := sg.Series[i]
		if out.Id != s.Id() {
			c.Failf("%s: series %d has id %d on the screen", show(set), i, out.Id)
		}
		var in []plot.Point
		for _, p := range s.Points() {
			if finite(p.Y()) {
				in = append(in, p)
			}
		}
		for j, px := range out.Points {
			n := len(px.OriginalPoints)
			if n == 0 || n > len(in) {
				c.Failf("%s: the mark at %d,%d of series %d stands for %d points", show(set), px.Col, px.Row, s.Id(), n)
			}
			if px.Col < 0 || int(px.Col) >= cols || px.Row < 0 || int(px.Row) >= rows {
				c.Failf("%s: mark at column %d, row %d of a canvas of %dx%d", show(set), px.Col, px.Row, cols, rows)
			}
			mean := 0.0
			for k := 0; k < n; k++ {
				p := in[k]
				if q := px.OriginalPoints[k]; q.X() != p.X() || q.Y() != p.Y() {
					c.Failf("%s: point %d=%g is missing", show(set), p.X(), p.Y())
				}
				wantCol := fracT(p.X(), g.DomainMin, g.DomainMax) * float64(cols-1)
				if math.Abs(wantCol-float64(px.Col)) > 0.5+eps {
					c.Failf("%s on %dx%d: point %d=%g is in column %d, its place is %.3f", show(set), cols, rows, p.X(), p.Y(), px.Col, wantCol)
				}
				mean += frac(p.Y(), g.RangeMin, g.RangeMax) * float64(rows-1) / float64(n)
			}
			tol := 0.5
			if n > 1 {
				tol = 1.5
			}
			if math.Abs(mean-float64(px.Row)) > tol+eps {
				c.Failf("%s on %dx%d: %v is in row %d, its place is %.3f", show(set), cols, rows, px.OriginalPoints, px.Row, mean)
			}
			in = in[n:]
			add(points, cellPos{int(px.Row), int(px.Col)}, s.Id())
			if j > 0 {
				prev := out.Points[j-1]
				if px.Col <= prev.Col {
					c.Failf("%s: columns go from %d to %d", show(set), prev.Col, px.Col)
				}
				l := &line{id: s.Id(), r0: int(prev.Row), c0: int(prev.Col), r1: int(px.Row), c1: int(px.Col)}
				if l.falling = l.r1 < l.r0; l.falling {
					l.knownCells = map[cellPos]bool{}
					if l.c1-l.c0 > l.r0-l.r1 {
						for col := l.c0; col <= l.c1; col++ {
							l.knownCells[cellPos{l.r0, col}] = true
						}
					}
				}
				lines = append(lines, l)
			}
		}
		if len(in) > 0 {
			c.Failf("%s: point %d=%g isn't shown", show(set), in[0].X(), in[0].Y())
		}
	}

	r := sg.Render(func(row plot.Row, col plot.Column, size plot.ScreenSize) int {
		if int(size.Rows) != rows || int(size.Cols) != cols || row < 0 || int(row) >= rows || col < 0 || int(col) >= cols {
			c.Failf("%s: asked for the place of row %d column %d in %dx%d, canvas %dx%d", show(set), row, col, size.Cols, size.Rows, cols, rows)
		}
		return int(row)*cols + int(col)
	})
	marks := map[cellPos]map[plot.SeriesId]bool{}
	for i, cell := range r.Cells {
		p := cellPos{i / cols, i % cols}
		if cell.Series == plot.NoSeries {
			continue
		}
		if cell.IsPoint != (points[p] != nil) {
			c.Failf("%s on %dx%d: column %d row %d: point=%v", show(set), cols, rows, p.col, p.row, cell.IsPoint)
		}
		if cell.IsPoint && !points[p][cell.Series] {
			c.Failf("%s on %dx%d: column %d row %d is a point of series %d", show(set), cols, rows, p.col, p.row, cell.Series)
		}
		add(marks, p, cell.Series)
		for _, id := range cell.MoreSeries {
			add(marks, p, id)
		}
	}
	for p, ids := range points {
		for id := range ids {
			if !marks[p][id] {
				c.Failf("%s on %dx%d: the point at column %d row %d isn't marked", show(set), cols, rows, p.col, p.row)
			}
		}
	}
	wrong := map[*line]bool{}
	for _, l := range lines {
		joined := l.joined(marks)
		if l.falling {
			drawn, off := true, !joined
			for p := range l.knownCells {
				drawn = drawn && marks[p][l.id]
				off = off || !l.near(p)
			}
			if drawn && off {
				wrong[l] = true
				c.Known("falling-line", "%s on %dx%d: (%d,%d) and (%d,%d) aren't joined", show(set), cols, rows, l.c0, l.r0, l.c1, l.r1)
				continue
			}
		}
		if joined {
			continue
		}
		c.Failf("%s on %dx%d: (%d,%d) and (%d,%d) of series %d aren't joined by a line: %v", show(set), cols, rows, l.c0, l.r0, l.c1, l.r1, l.id, marksOf(marks, l.id))
	}
	for p, ids := range marks {
	ids:
		for id := range ids {
			if points[p][id] {
				continue
			}
			for _, l := range lines {
				if l.id == id && (!wrong[l] && l.near(p) || wrong[l] && l.knownCells[p]) {
					continue ids
				}
			}
			c.Failf("%s on %dx%d: series %d marks column %d row %d, which is on none of its lines", show(set), cols, rows, id, p.col, p.row)
		}
	}
	return marks
}

func marksOf(marks map[cellPos]map[plot.SeriesId]bool, id plot.SeriesId) []string {
	var out []string
	for p, ids := range marks {
		if ids[id] {
			out = append(out, fmt.Sprintf("(%d,%d)", p.col, p.row))
		}
	}
	sort.Strings(out)
	return out
}

// dots of a braille character, from the Unicode standard: the value of the dot
// in row r (from the top) and column c.
var dotBit = [4][2]rune{{0x01, 0x08}, {0x02, 0x10}, {0x04, 0x20}, {0x40, 0x80}}

// compareBraille draws sg and compares the dots with the marks.
func compareBraille(c *vh.C, sg *plot.ScreenGraph, marks map[cellPos]map[plot.SeriesId]bool, chCols, chRows int) {
	seen := map[cellPos]bool{}
	plot.DrawBraille(sg.Render(plot.BrailleCellMapper), func(row plot.Row, col plot.Column, ch rune, id plot.SeriesId) {
		p := cellPos{int(row), int(col)}
		if p.row < 0 || p.row >= chRows || p.col < 0 || p.col >= chCols || seen[p] {
			c.Failf("character at row %d column %d of %dx%d (again: %v)", row, col, chCols, chRows, seen[p])
		}
		seen[p] = true
		checkChar(c, p, ch, marks, chRows, func(ids map[plot.SeriesId]bool) bool {
			return len(ids) == 0 && id == plot.NoSeries || ids[id]
		})
	})
	if len(seen) != chCols*chRows {
		c.Failf("%d characters of %dx%d drawn", len(seen), chCols, chRows)
	}
}

// checkChar judges the character at p of a canvas of chRows rows.
func checkChar(c *vh.C, p cellPos, ch rune, marks map[cellPos]map[plot.SeriesId]bool, chRows int, idOK func(map[plot.SeriesId]bool) bool) {
	want := rune(0)
	ids := map[plot.SeriesId]bool{}
	for r := 0; r < 4; r++ {
		for cc := 0; cc < 2; cc++ {
			if m := marks[cellPos{4*chRows - 1 - (4*p.row + r), 2*p.col + cc}]; len(m) > 0 {
				want |= dotBit[r][cc]
				for id := range m {
					ids[id] = true
				}
			}
		}
	}
	got := ch - 0x2800
	if ch == ' ' {
		got = 0
	}
	if got != want {
		c.Failf("character row %d column %d is %q (dots %#x), want dots %#x", p.row, p.col, ch, got, want)
	}
	if !idOK(ids) {
		c.Failf("character row %d column %d has the colour of a series that isn't there", p.row, p.col)
	}
}

var sim = func() tcell.SimulationScreen {
	s := tcell.NewSimulationScreen("UTF-8")
	if err := s.Init(); err != nil {
		panic(err)
	}
	return s
}()

const untouched = '▒'

// checkWidget draws the graph widget and compares the plot's area with the marks.
func checkWidget(c *vh.C, set plot.SeriesSet, x0, y0, cols, rows int) {
	c.Trans(1)
	c.Trace()
	g := plot.DataToPlatonicGraph(set, plot.AutoAxes())
	gv := &term.GraphView{Graph: g, DomainLabeler: func(int64) string { return "x" }, RangeLabeler: func(float64) string { return "yy" }}
	gv.SetBox(term.PositionBox{StartCol: x0, StartRow: y0, Cols: cols, Rows: rows})
	W, H := x0+cols+3, y0+rows+3
	sim.SetSize(W, H)
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			sim.SetContent(x, y, untouched, nil, tcell.StyleDefault)
		}
	}
	gv.FlushTo(sim)
	at := func(x, y int) (rune, tcell.Color) {
		ch, _, sty, _ := sim.GetContent(x, y)
		fg, _, _ := sty.Decompose()
		return ch, fg
	}
	// two label columns and the axis, one label row and the axis; without
	// values to draw there are no labels on the left
	left, below := 3, 2
	if g.RangeMin > g.RangeMax {
		left = 1
	}
	icols, irows := cols-left, rows-below
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			inside := x >= x0 && x < x0+cols && y >= y0 && y < y0+rows
			ch, _ := at(x, y)
			if ch != untouched && (!inside || icols <= 0 || irows <= 0) {
				c.Failf("%s in %dx%d at %d,%d: draws %q at %d,%d", show(set), cols, rows, x0, y0, ch, x, y)
			}
		}
	}
	if icols <= 0 || irows <= 0 {
		return
	}
	marks := checkScreen(c, set, g, g.ToScreen(ident, plot.ScreenSize{Rows: plot.Row(4 * irows), Cols: plot.Column(2 * icols)}), 2*icols, 4*irows)
	colours := map[plot.SeriesId]tcell.Color{}
	for y := 0; y < irows; y++ {
		for x := 0; x < icols; x++ {
			ch, fg := at(x0+left+x, y0+y)
			if ch == untouched {
				ch = ' '
			}
			checkChar(c, cellPos{y, x}, ch, marks, irows, func(ids map[plot.SeriesId]bool) bool {
				if len(ids) == 1 {
					for id := range ids {
						if old, ok := colours[id]; ok && old != fg {
							return false
						}
						colours[id] = fg
					}
				}
				return true
			})
		}
	}
}

// largeC19: realistic data on realistic screens.
func largeC19(h *vh.H) {
	shapes := []struct {
		name string
		f    func(i, n, k int) float64
	}{
		{"ramp", func(i, n, k int) float64 { return float64(i) + float64(k) }},
		{"falling ramp", func(i, n, k int) float64 { return float64(n-i) * float64(k+1) }},
		{"zigzag", func(i, n, k int) float64 { return float64((i % 2) * (k + 1)) }},
		{"counter with resets", func(i, n, k int) float64 { return float64((i * 17) % (101 + k)) }},
		{"constant", func(i, n, k int) float64 { return float64(k) / 3 }},
		{"wave", func(i, n, k int) float64 { return 1000 + 5*math.Sin(float64(i)/7+float64(k)) }},
		{"spike", func(i, n, k int) float64 {
			if i == n/2 {
				return 1e9
			}
			return float64(k)
		}},
		{"gaps", func(i, n, k int) float64 {
			if i%3 == k%3 {
				return math.NaN()
			}
			return float64(i*k) + 0.25
		}},
		{"memory", func(i, n, k int) float64 { return 8e9 + float64(i*i%97)*4096 + float64(k)*1e6 }},
		{"small", func(i, n, k int) float64 { return 1e-9 * float64((i*7919)%1009+k) }},
	}
	sizes := []struct{ cols, rows int }{{150, 80}, {140, 68}, {254, 160}, {17, 200}, {300, 9}, {255, 127}, {256, 128}, {257, 129}, {99, 99}, {101, 44}, {64, 64}, {33, 31}}
	if h.Quick() {
		sizes = sizes[:8]
	}
	for _, sh := range shapes {
		for _, n := range []int{1, 2, 3, 17, 60, 121, 500, 1000} {
			for _, m := range []int{1, 2, 7, 40, 300} {
				if n*m > h.Pick(2500, 60000) {
					continue
				}
				for step, times := range []func(i int) int64{
					func(i int) int64 { return 1600000000000 + int64(i)*10000 },
					func(i int) int64 { return 1600000000000 + int64(i)*10000 + int64(i%7)*1237 },
					func(i int) int64 { return int64(i*i) * 250 },
				} {
					sh, n, m, step, times := sh, n, m, step, times
					if h.Quick() && (n+m+step)%3 != 0 {
						continue
					}
					if h.Stop() {
						return
					}
					h.Case(func() string { return fmt.Sprintf("%d series of %d points, %s, times %d", m, n, sh.name, step) }, func(c *vh.C) {
						var set plot.SeriesSet
						for k := 0; k < m; k++ {
							var pts []pt
							for i := 0; i < n; i++ {
								pts = append(pts, pt{times(i), sh.f(i, n, k)})
							}
							set = append(set, mk(plot.SeriesId(k+1), pts...))
						}
						for i, sz := range sizes {
							c.Touch()
							if i > 2 && n*m > h.Pick(150, 1000) && (i+n+m+step)%4 != 0 {
								continue
							}
							checkGraph(c, set, plot.AutoAxes(), sz.cols, sz.rows)
							if n*m <= 1000 && i%3 == step {
								checkWidget(c, set, 1, 1, sz.cols/2, sz.rows/4)
							}
						}
					})
				}
			}
		}
	}
}
