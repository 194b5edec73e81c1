package main

import (
	"unicode"

	"github.com/gdamore/tcell"
)

// rcell is a cell of the reference terminal.  Cells that are covered by a wide
// character, or hold one that has lost its other half, are "any": what they
// hold can't be seen, or isn't specified.
type rcell struct {
	cellv
	any  bool
	wide bool // first half of a wide character
	tail bool // second half of one
}

// refTerm is a terminal of a given size.
type refTerm struct {
	cols, rows int
	cells      []rcell
	row, col   int // col == cols: the next character wraps
	sty        tcell.Style
}

func newRef(cols, rows int) *refTerm {
	t := &refTerm{}
	t.resize(cols, rows)
	return t
}

func (t *refTerm) clamp() {
	t.row = max(0, min(t.row, t.rows-1))
	t.col = max(0, min(t.col, t.cols))
}

func (t *refTerm) resize(cols, rows int) {
	n := make([]rcell, cols*rows)
	for i := range n {
		n[i].cellv = blank
	}
	for y := 0; y < rows && y < t.rows; y++ {
		for x := 0; x < cols && x < t.cols; x++ {
			n[y*cols+x] = t.cells[y*t.cols+x]
		}
		if cols > 0 && n[y*cols+cols-1].wide {
			n[y*cols+cols-1].any, n[y*cols+cols-1].wide = true, false
		}
	}
	t.cells, t.cols, t.rows = n, cols, rows
	t.clamp()
}

func (t *refTerm) at(x, y int) *rcell { return &t.cells[y*t.cols+x] }

// set replaces one cell, breaking wide characters it's part of.
func (t *refTerm) set(x, y int, c rcell) {
	if x < 0 || y < 0 || x >= t.cols || y >= t.rows {
		return
	}
	old := t.at(x, y)
	if old.tail && x > 0 {
		h := t.at(x-1, y)
		h.any, h.wide = true, false
	}
	if old.wide && x+1 < t.cols {
		t.at(x+1, y).tail = false
	}
	*old = c
}

func (t *refTerm) clear(y, from, to int) {
	for x := from; x < to; x++ {
		t.set(x, y, rcell{cellv: blank})
	}
}

func (t *refTerm) newline() {
	t.clear(t.row, t.col, t.cols)
	t.col = 0
	if t.row < t.rows-1 {
		t.row++
	} else {
		t.shiftUp()
	}
}

func (t *refTerm) shiftUp() {
	if t.rows == 0 {
		return
	}
	copy(t.cells, t.cells[t.cols:])
	for x := 0; x < t.cols; x++ {
		*t.at(x, t.rows-1) = rcell{cellv: blank}
	}
}

func (t *refTerm) shiftDown() {
	if t.rows == 0 {
		return
	}
	copy(t.cells[t.cols:], t.cells)
	for x := 0; x < t.cols; x++ {
		*t.at(x, 0) = rcell{cellv: blank}
	}
}

func (t *refTerm) put(ch rune, comb string, w int) {
	if w > t.cols {
		return
	}
	if t.col+w > t.cols {
		t.newline()
	}
	for i := 1; i < w; i++ {
		t.set(t.col+i, t.row, rcell{any: true, tail: true})
	}
	t.set(t.col, t.row, rcell{cellv: cellv{ch, comb, t.sty}, wide: w > 1})
	if w > 1 && t.row < t.rows {
		t.at(t.col+1, t.row).tail = true
	}
	t.col += w
}

// write writes text.
func (t *refTerm) write(s string) {
	var ch rune
	comb, w := "", 0
	flush := func() {
		if w > 0 {
			t.put(ch, comb, w)
			comb, w = "", 0
		}
	}
	for _, r := range s {
		switch {
		case r == '\n':
			flush()
			t.newline()
		case unicode.IsControl(r):
		case width(r) == 0:
			if w == 0 {
				ch, w = ' ', 1
			}
			comb += string(r)
		default:
			flush()
			ch, w = r, width(r)
		}
	}
	flush()
}
