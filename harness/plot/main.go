// Checks of the plots (C19, C20).
package main

import (
	"fmt"
	"math"
	"strings"

	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif/vh"
)

func main() {
	vh.Main(
		vh.Check{ID: "C19", Bounds: boundsC19, Run: runC19},
		vh.Check{ID: "C20", Bounds: boundsC20, Run: runC20},
	)
}

type pt struct {
	x int64
	y float64
}

func (p pt) X() int64   { return p.x }
func (p pt) Y() float64 { return p.y }

type series struct {
	id  plot.SeriesId
	pts []plot.Point
}

func (s series) Title() string        { return fmt.Sprint("s", s.id) }
func (s series) Id() plot.SeriesId    { return s.id }
func (s series) Points() []plot.Point { return s.pts }

func mk(id plot.SeriesId, pts ...pt) series {
	s := series{id: id, pts: []plot.Point{}}
	for _, p := range pts {
		s.pts = append(s.pts, p)
	}
	return s
}

func show(set plot.SeriesSet) string {
	var sb strings.Builder
	for _, s := range set {
		fmt.Fprintf(&sb, "[%d:", s.Id())
		for _, p := range s.Points() {
			fmt.Fprintf(&sb, " %d=%g", p.X(), p.Y())
		}
		sb.WriteString("]")
	}
	return sb.String()
}

func ident(v float64) float64 { return v }

func finite(v float64) bool { return !math.IsNaN(v) && !math.IsInf(v, 0) }

// frac is (v-lo)/(hi-lo), and 0 if they are the same.
func frac(v, lo, hi float64) float64 {
	if lo == hi {
		return 0
	}
	if d := hi - lo; math.IsInf(d, 0) {
		return (v/2 - lo/2) / (hi/2 - lo/2)
	}
	return (v - lo) / (hi - lo)
}

// fracT is frac for times, whose differences may exceed an int64.
func fracT(v, lo, hi int64) float64 {
	if lo == hi {
		return 0
	}
	return float64(uint64(v)-uint64(lo)) / float64(uint64(hi)-uint64(lo))
}

const eps = 1e-6

type cellPos struct{ row, col int }
