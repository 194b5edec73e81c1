package main

import (
	"errors"

	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"

	"verif/vsync"
)

func width(r rune) int { return runewidth.RuneWidth(r) }

// cellv is the content of one screen cell.
type cellv struct {
	ch   rune
	comb string
	sty  tcell.Style
}

var blank = cellv{ch: ' '}

// screen is a tcell screen for use under the exploring scheduler: like tcell's
// own it has a lock around its state, a bounded channel for events, and one
// that is closed to end the polling.  All of its calls are scheduling points.
type screen struct {
	mu         vsync.Mutex
	cols, rows int
	side       int // the largest size, both ways
	cells      [][]cellv
	shown      [][]cellv
	onShow     func()
	cursor     [2]int
	cursorOn   bool
	inits      int
	finis      int
	shows      int
	evch       chan tcell.Event
	quit       chan struct{}
}

func newScreen(cols, rows int) *screen { return newScreenOf(cols, rows, 20) }

func newScreenOf(cols, rows, side int) *screen {
	s := &screen{cols: cols, rows: rows, side: side, evch: make(chan tcell.Event, 10), quit: make(chan struct{})}
	for i := 0; i < side; i++ {
		s.cells = append(s.cells, make([]cellv, side))
		s.shown = append(s.shown, make([]cellv, side))
	}
	return s
}

func (s *screen) lock() func() { s.mu.Lock(); return s.mu.Unlock }

func (s *screen) Init() error {
	defer s.lock()()
	s.inits++
	return nil
}

func (s *screen) Fini() {
	defer s.lock()()
	s.finis++
	if s.finis == 1 {
		close(s.quit)
	}
}

func (s *screen) Clear() {
	defer s.lock()()
	for x := range s.cells {
		for y := range s.cells[x] {
			s.cells[x][y] = cellv{}
		}
	}
}

func (s *screen) Fill(r rune, sty tcell.Style) {
	defer s.lock()()
	for x := 0; x < s.cols; x++ {
		for y := 0; y < s.rows; y++ {
			s.cells[x][y] = cellv{ch: r, sty: sty}
		}
	}
}

func (s *screen) SetCell(x, y int, sty tcell.Style, ch ...rune) {
	if len(ch) > 0 {
		s.SetContent(x, y, ch[0], ch[1:], sty)
	} else {
		s.SetContent(x, y, ' ', nil, sty)
	}
}

func (s *screen) GetContent(x, y int) (rune, []rune, tcell.Style, int) {
	defer s.lock()()
	c := blank
	if x >= 0 && y >= 0 && x < s.side && y < s.side && s.cells[x][y].ch != 0 {
		c = s.cells[x][y]
	}
	return c.ch, []rune(c.comb), c.sty, width(c.ch)
}

// SetContent is no scheduling point, for there are many, and all by the one
// who draws.
//
//go:norace
func (s *screen) SetContent(x, y int, mainc rune, combc []rune, sty tcell.Style) {
	if x < 0 || y < 0 || x >= s.side || y >= s.side {
		return
	}
	if mainc < ' ' {
		mainc = ' '
	}
	s.cells[x][y] = cellv{ch: mainc, comb: string(combc), sty: sty}
}

func (s *screen) SetStyle(tcell.Style) {}

func (s *screen) ShowCursor(x, y int) {
	defer s.lock()()
	s.cursor = [2]int{x, y}
	s.cursorOn = true
}

func (s *screen) HideCursor() {
	defer s.lock()()
	s.cursorOn = false
}

func (s *screen) Size() (int, int) {
	defer s.lock()()
	return s.cols, s.rows
}

func (s *screen) PollEvent() tcell.Event {
	vsync.Point()
	select {
	case <-s.quit:
		return nil
	default:
	}
	select {
	case <-s.quit:
		return nil
	case e := <-s.evch:
		return e
	}
}

var errFull = errors.New("event queue full")

func (s *screen) PostEvent(ev tcell.Event) error {
	vsync.Point()
	select {
	case s.evch <- ev:
		return nil
	default:
		return errFull
	}
}

func (s *screen) PostEventWait(ev tcell.Event) {
	vsync.Point()
	s.evch <- ev
}

func (s *screen) EnableMouse()   {}
func (s *screen) DisableMouse()  {}
func (s *screen) HasMouse() bool { return false }
func (s *screen) Colors() int    { return 256 }

func (s *screen) Show() {
	defer s.lock()()
	s.shows++
	for i := range s.cells {
		copy(s.shown[i], s.cells[i])
	}
	if s.onShow != nil {
		s.onShow()
	}
}
func (s *screen) Sync() { s.Show() }

func (s *screen) CharacterSet() string              { return "UTF-8" }
func (s *screen) RegisterRuneFallback(rune, string) {}
func (s *screen) UnregisterRuneFallback(rune)       {}
func (s *screen) CanDisplay(rune, bool) bool        { return true }
func (s *screen) Resize(int, int, int, int)         {}
func (s *screen) HasKey(tcell.Key) bool             { return true }
func (s *screen) RequestRepaint()                   {}

// resize changes the screen's size, as the terminal does: an event tells about it.
func (s *screen) resize(cols, rows int) {
	s.mu.Lock()
	s.cols, s.rows = cols, rows
	s.mu.Unlock()
	s.PostEvent(tcell.NewEventResize(cols, rows))
}

// row is what a row of the screen shows.
func (s *screen) row(y int) string {
	var out []rune
	for x := 0; x < s.cols; x++ {
		if c := s.shown[x][y]; c.ch == 0 {
			out = append(out, ' ')
		} else {
			out = append(out, c.ch)
		}
	}
	return string(out)
}
