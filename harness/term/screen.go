package main

import (
	"errors"
	"maps"
	"sync"

	"github.com/gdamore/tcell"
)

// cellv is the content of one screen cell.
type cellv struct {
	ch   rune
	comb string
	sty  tcell.Style
}

var blank = cellv{ch: ' '}

// fakeScreen is a complete tcell screen that records what is drawn on it.  Its
// event queue is bounded like that of a real screen, and PollEvent only hands
// out events that the driver has permitted (unless free is set).
type fakeScreen struct {
	mu         sync.Mutex
	cond       *sync.Cond
	cols, rows int
	cells      map[[2]int]cellv
	shown      map[[2]int]cellv
	sets       [][2]int // positions set since last reset of this slice
	shows      int
	clears     int
	inits      int
	finis      int
	initErr    error
	cursor     [2]int
	cursorOn   bool

	queue    []tcell.Event
	qcap     int
	free     bool
	permits  int
	polling  bool // a PollEvent call is waiting
	polls    int
	overflow int
	postedOK []tcell.Event
	onInit   func(s *fakeScreen)
	hook     func(point string) // called without the lock held
}

func newScreen(cols, rows int) *fakeScreen {
	s := &fakeScreen{cols: cols, rows: rows, cells: map[[2]int]cellv{}, shown: map[[2]int]cellv{}, qcap: 10}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *fakeScreen) call(point string) {
	if s.hook != nil {
		s.hook(point)
	}
}

func (s *fakeScreen) Init() error {
	s.mu.Lock()
	s.inits++
	err := s.initErr
	s.mu.Unlock()
	if err != nil {
		return err
	}
	if s.onInit != nil {
		s.onInit(s)
	}
	return nil
}

func (s *fakeScreen) Fini() {
	s.mu.Lock()
	s.finis++
	s.cond.Broadcast()
	s.mu.Unlock()
}

func (s *fakeScreen) Clear() {
	s.call("clear")
	s.mu.Lock()
	defer s.mu.Unlock()
	s.clears++
	s.cells = map[[2]int]cellv{}
}

func (s *fakeScreen) Fill(r rune, sty tcell.Style) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for x := 0; x < s.cols; x++ {
		for y := 0; y < s.rows; y++ {
			s.cells[[2]int{x, y}] = cellv{ch: r, sty: sty}
		}
	}
}

func (s *fakeScreen) SetCell(x, y int, sty tcell.Style, ch ...rune) {
	if len(ch) > 0 {
		s.SetContent(x, y, ch[0], ch[1:], sty)
	} else {
		s.SetContent(x, y, ' ', nil, sty)
	}
}

func (s *fakeScreen) GetContent(x, y int) (rune, []rune, tcell.Style, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c, ok := s.cells[[2]int{x, y}]
	if !ok {
		c = blank
	}
	return c.ch, []rune(c.comb), c.sty, width(c.ch)
}

func (s *fakeScreen) SetContent(x, y int, mainc rune, combc []rune, sty tcell.Style) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if mainc < ' ' {
		mainc = ' '
	}
	s.sets = append(s.sets, [2]int{x, y})
	s.cells[[2]int{x, y}] = cellv{ch: mainc, comb: string(combc), sty: sty}
}

func (s *fakeScreen) SetStyle(tcell.Style) {}

func (s *fakeScreen) ShowCursor(x, y int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cursor = [2]int{x, y}
	s.cursorOn = true
}

func (s *fakeScreen) HideCursor() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cursorOn = false
}

func (s *fakeScreen) Size() (int, int) {
	s.mu.Lock()
	c, r := s.cols, s.rows
	s.mu.Unlock()
	s.call("size")
	return c, r
}

func (s *fakeScreen) PollEvent() tcell.Event {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.polls++
	s.polling = true
	s.cond.Broadcast()
	defer func() { s.polling = false; s.cond.Broadcast() }()
	for {
		if s.finis > 0 {
			return nil
		}
		if len(s.queue) > 0 && (s.free || s.permits > 0) {
			if !s.free {
				s.permits--
			}
			e := s.queue[0]
			s.queue = s.queue[1:]
			return e
		}
		s.cond.Wait()
	}
}

var errFull = errors.New("event queue full")

func (s *fakeScreen) PostEvent(ev tcell.Event) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.queue) >= s.qcap {
		s.overflow++
		return errFull
	}
	s.queue = append(s.queue, ev)
	s.postedOK = append(s.postedOK, ev)
	s.cond.Broadcast()
	return nil
}

// PostEventWait blocks while the queue is full.
func (s *fakeScreen) PostEventWait(ev tcell.Event) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for len(s.queue) >= s.qcap && s.finis == 0 {
		s.cond.Wait()
	}
	s.queue = append(s.queue, ev)
	s.postedOK = append(s.postedOK, ev)
	s.cond.Broadcast()
}

func (s *fakeScreen) EnableMouse()  {}
func (s *fakeScreen) DisableMouse() {}
func (s *fakeScreen) HasMouse() bool {
	return false
}
func (s *fakeScreen) Colors() int { return 256 }

func (s *fakeScreen) Show() {
	s.call("show")
	s.mu.Lock()
	defer s.mu.Unlock()
	s.shows++
	s.shown = maps.Clone(s.cells)
}
func (s *fakeScreen) Sync() { s.Show() }

func (s *fakeScreen) CharacterSet() string              { return "UTF-8" }
func (s *fakeScreen) RegisterRuneFallback(rune, string) {}
func (s *fakeScreen) UnregisterRuneFallback(rune)       {}
func (s *fakeScreen) CanDisplay(rune, bool) bool        { return true }
func (s *fakeScreen) Resize(int, int, int, int)         {}
func (s *fakeScreen) HasKey(tcell.Key) bool             { return true }
func (s *fakeScreen) RequestRepaint()                   {}

// step lets the event loop handle one event (if there's one) and waits until
// it asks for the next one.  It returns false if there was nothing to handle.
func (s *fakeScreen) step() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for !s.polling && s.finis == 0 {
		s.cond.Wait()
	}
	if len(s.queue) == 0 || s.finis > 0 {
		return false
	}
	p := s.polls
	s.permits = 1
	s.cond.Broadcast()
	for s.finis == 0 && s.polls == p {
		s.cond.Wait()
	}
	return true
}

// settle handles events until there are none.
func (s *fakeScreen) settle() {
	for s.step() {
	}
}

// waitPoll waits until the event loop asks for an event.
func (s *fakeScreen) waitPoll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for s.polls == 0 && s.finis == 0 {
		s.cond.Wait()
	}
}
