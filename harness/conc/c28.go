package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"strings"
	"testing/synctest"
	"time"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
	"github.com/prometheus/prometheus/pkg/labels"
	"k8s.io/cli-runtime/pkg/genericclioptions"
	"k8s.io/client-go/rest"

	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif/hook"
	"verif/vh"
	"verif/vsync"
)

const (
	mEnterN = iota
	mEnterBad
	mEnterQuit
	mType
	mResize
	mFail
)

var c28Ops = []string{"enter n", "enter m{", "enter :q", "type n", "resize", "the target fails"}

// c28At is the fetch in question.
const c28At = 3

const c28Period = 150 * time.Millisecond

func boundsC28(q bool) string {
	return fmt.Sprintf("every interleaving with <=%d deviations from running each goroutine for as long as it can of the whole command in continuous mode (periodic scrapes, event loop, prompt) with a user who does one of %d things (%s) at each of %d instants around a scrape, or none, or two in a row (thorough), under the race detector; network and screen faked, virtual time",
		map[bool]int{true: 1, false: 2}[q], len(c28Ops), strings.Join(c28Ops, ", "), len(c28Offsets(q)))
}

// c28Offsets are the times before a scrape, in ms, at which the user acts.
func c28Offsets(q bool) []int {
	if q {
		return []int{0, 15, 25}
	}
	return []int{-5, 0, 5, 10, 15, 20, 25, 30, 35}
}

func runC28(h *vh.H) {
	slow := 0
	run := func(bound, offset int, ops ...int) {
		lat := slow
		name := fmt.Sprintf("%dms before a scrape that takes %dms: %s", offset, lat, names27(c28Ops, ops))
		h.Case(func() string { return fmt.Sprintf("bound %d, %s", bound, name) }, func(c *vh.C) {
			exploreDelays(c, bound, fmt.Sprint(lat, offset, ops), func() world { return newCommand(lat, offset, ops) })
		})
		h.Case(func() string { return fmt.Sprintf("bound %d, newest first, %s", bound, name) }, func(c *vh.C) {
			exploreReversed(c, bound, fmt.Sprint(lat, offset, ops), func() world { return newCommand(lat, offset, ops) })
		})
	}
	// a target that takes its time
	for _, l := range []struct {
		lat     int
		offsets []int
	}{{40, []int{10, -15}}, {200, []int{-100, -175}}} {
		slow = l.lat
		for op := range c28Ops {
			for _, off := range l.offsets {
				if op == mEnterQuit && off == -175 {
					continue // there'd be a tick waiting, too
				}
				if h.Quick() && (op == mType || op == mEnterBad || op == mFail) && off != l.offsets[1] {
					continue
				}
				run(1, off, op)
			}
		}
	}
	slow = 0
	run(h.Pick(1, 2), 0)
	for op := range c28Ops {
		for _, off := range c28Offsets(h.Quick()) {
			run(1, off, op)
		}
	}
	if !h.Quick() {
		for a := range c28Ops {
			for b := range c28Ops {
				for _, off := range []int{10, 25, 40} {
					run(1, off, a, b)
				}
			}
		}
		for op := range c28Ops {
			for _, off := range []int{0, 15, 20} {
				run(2, off, op)
			}
		}
	}
}

// The samples of the k-th fetch.
func c28Value(name string, k int) float64 {
	if name == "m" {
		return []float64{1, -50, 30, 4, 3.5, 2, 2, 7}[k%8]
	}
	return []float64{700, 900, 1400, 500, 1008, 1007, 1006, 1005}[k%8]
}

const c28URL = "http://t0/metrics"

// command is the whole command in continuous mode.
type command struct {
	lat    int // how long the fetch that is in question takes, in ms
	offset int
	ops    []int
	s      *screen
	out    bytes.Buffer
	done   bool
	err    error
	t0     time.Time
	rounds int // fetches begun
	// when they began and ended
	begun, ended []time.Duration
	failed       map[int]bool
	fail         bool // the next fetch fails
	over         int  // how far the final command has been typed
	ticks        int
	stage        int
	bad          string
	typed        string
	lines        []string
	// by query, the round after which its legend was first shown
	first map[string]int
	// when the new query was first shown to be in force
	entered time.Time
	verdict string
	cols    int
	rows    int
}

func newCommand(lat, offset int, ops []int) *command {
	w := &command{lat: lat, offset: offset, ops: ops, s: newScreenOf(100, 34, 110), t0: time.Now(), failed: map[int]bool{}, first: map[string]int{}, lines: []string{"m"}}
	w.s.onShow = w.showing
	w.s.evch <- tcell.NewEventResize(100, 34)
	hook.MakeScreen = func() (tcell.Screen, error) { return w.s, nil }
	hook.MakePrompt = func(comp prompt.Completer, opts ...prompt.Option) *prompt.Prompt {
		pr := newPrompt(comp, opts...)
		setf(pr, "in", &quitting{ConsoleParser: getf(pr, "in").(prompt.ConsoleParser), over: &w.over})
		return pr
	}
	return w
}

// quitting enters :q in the end.
type quitting struct {
	prompt.ConsoleParser
	first bool
	over  *int
}

func (p *quitting) Setup() error {
	p.first = true
	return p.ConsoleParser.Setup()
}

//go:norace
func (p *quitting) Read() ([]byte, error) {
	if p.first {
		p.first = false
		time.Sleep(5 * time.Millisecond)
	}
	if *p.over > 0 {
		*p.over++
		return []byte([]string{"\x15", ":", "q", "\r"}[(*p.over-2)%4]), nil
	}
	return p.ConsoleParser.Read()
}

// next is when the next fetch should begin: at the next tick, or right after the
// previous one if that took longer.
//
//go:norace
func (w *command) next() time.Duration {
	n := len(w.begun)
	if n == 0 {
		return 0
	}
	if len(w.ended) < n {
		return -1 // not before the previous one is over
	}
	tick := (w.begun[n-1]/c28Period + 1) * c28Period
	if tick < w.ended[n-1] {
		return w.ended[n-1]
	}
	return tick
}

var errNet = errors.New("no route")

// RoundTrip answers the command's requests.
//
//go:norace
func (w *command) RoundTrip(r *http.Request) (*http.Response, error) {
	vsync.Point()
	k := w.rounds
	w.rounds++
	if u := r.URL.String(); u != c28URL {
		w.bad = "unexpected request " + u
	}
	now := time.Since(w.t0)
	if want := w.next(); now != want {
		w.bad = fmt.Sprintf("fetch %d at %v after the start, want %v", k, now, want)
	}
	w.begun = append(w.begun, now)
	if k == c28At && w.lat > 0 {
		select {
		case <-time.After(time.Duration(w.lat) * time.Millisecond):
		case <-r.Context().Done():
		}
		vsync.Point()
	}
	w.ended = append(w.ended, time.Since(w.t0))
	if err := r.Context().Err(); err != nil {
		w.failed[k] = true
		return nil, err
	}
	if w.fail {
		w.fail = false
		w.failed[k] = true
		return nil, errNet
	}
	text := ""
	for _, n := range []string{"m", "n"} {
		text += fmt.Sprintf("%s{a=\"%s0\"} %g\n", n, n, c28Value(n, k))
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(text))}, nil
}

func (w *command) title(name string) string { return name + ", " + name + "0, " + c28URL }

// showing notes what query's result is shown.
//
//go:norace
func (w *command) showing() {
	if w.entered.IsZero() {
		for y := 0; y < w.s.rows; y++ {
			if w.s.shown[0][y].ch == 'P' && strings.HasPrefix(w.s.row(y), `Plotting "n"`) {
				w.entered = time.Now()
			}
		}
	}
	for _, n := range []string{"m", "n"} {
		if w.s.shown[0][0].ch == '•' && string([]rune{w.s.shown[2][0].ch, w.s.shown[3][0].ch, ' ', w.s.shown[5][0].ch}) == n+", "+n {
			if _, ok := w.first[n]; !ok {
				w.first[n] = w.rounds - 1
			}
		}
	}
}

func (w *command) threads() []func() {
	mc := metrics.MetricsCommand{
		PromQCommand: cli.PromQCommand{
			RestConfig: &rest.Config{Host: "http://kube:8080", Transport: w},
			Streams:    genericclioptions.IOStreams{In: strings.NewReader(""), Out: &w.out, ErrOut: &w.out},
		},
		Period: c28Period,
		Window: c28Period,
	}
	return []func(){func() {
		err := mc.Run(cli.PromQFlags{Continuous: true, PromQuery: "m", HostNames: []string{c28URL}, Output: "json"})
		w.err, w.done = err, true
	}, func() {
		time.Sleep(c28At*c28Period - time.Duration(w.offset)*time.Millisecond)
		for _, op := range w.ops {
			switch op {
			case mEnterN:
				w.enter("n")
			case mEnterBad:
				w.enter("m{")
			case mEnterQuit:
				w.enter(":q")
			case mType:
				w.key(runeKey('n'))
				w.typed += "n"
			case mResize:
				w.s.resize(104, 36)
			case mFail:
				w.failNext()
			}
		}
	}}
}

//go:norace
func (w *command) failNext() { w.fail = true }

func (w *command) enter(s string) {
	for _, r := range s {
		w.key(runeKey(r))
	}
	w.key(specialKey(tcell.KeyEnter))
	w.lines = append(w.lines, w.typed+s)
	w.typed = ""
}

func (w *command) key(e *tcell.EventKey) {
	if w.s.PostEvent(e) != nil {
		panic("too many keys")
	}
}

//go:norace
func (w *command) idle() bool {
	time.Sleep(5 * time.Millisecond)
	synctest.Wait()
	w.ticks++
	switch {
	case w.stage == 0 && time.Since(w.t0) > 5*c28Period+c28Period/2:
		w.stage = 1
		w.verdict = w.look()
		w.over = 1
		w.ticks = 0
	case w.stage == 1 && w.ticks > 60:
		return false
	}
	return true
}

// busy tells whether a result was being made at an instant.
//
//go:norace
func (w *command) busy(at time.Duration) bool {
	for _, e := range w.ended {
		if e == at {
			return true
		}
	}
	return false
}

// quits tells whether the user quit.
//
//go:norace
func (w *command) quits() bool {
	for _, l := range w.lines {
		if strings.HasPrefix(l, ":q") {
			return true
		}
	}
	return false
}

// result is what the query gives in the k-th round.
//
//go:norace
func (w *command) result(name string, k int) plot.SeriesSet {
	s := c28Series{title: w.title(name), id: plot.SeriesId(labels.FromStrings("__name__", name, "a", name+"0", "instance", c28URL).Hash()%255 + 1)}
	end := w.ended[k]
	for _, at := range []time.Duration{end - c28Period, end} {
		// the last sample up to then; the first fetch is only a test
		for v := k; v > 0; v-- {
			if !w.failed[v] && w.begun[v] <= at {
				s.pts = append(s.pts, c28Point{w.t0.Add(at).UnixNano() / 1e6, c28Value(name, v)})
				break
			}
		}
	}
	return plot.SeriesSet{s}
}

type c28Point struct {
	t int64
	v float64
}

func (p c28Point) X() int64   { return p.t }
func (p c28Point) Y() float64 { return p.v }

type c28Series struct {
	title string
	id    plot.SeriesId
	pts   []plot.Point
}

func (s c28Series) Title() string        { return s.title }
func (s c28Series) Id() plot.SeriesId    { return s.id }
func (s c28Series) Points() []plot.Point { return s.pts }

// look judges what happened once everything is settled.
//
//go:norace
func (w *command) look() string {
	if w.bad != "" {
		return w.bad
	}
	if w.out.Len() > 0 {
		return fmt.Sprintf("%q is printed", w.out.String())
	}
	if w.quits() {
		if !w.done || w.err != nil || w.s.inits != 1 || w.s.finis != 1 {
			return fmt.Sprintf("after quitting: returned %v (%v), screen initialised %d and finalised %d times", w.done, w.err, w.s.inits, w.s.finis)
		}
		if w.rounds > 4+len(w.ops) {
			return fmt.Sprintf("%d fetches", w.rounds)
		}
		return ""
	}
	if w.done {
		return fmt.Sprintf("the command ends with %v", w.err)
	}
	last := len(w.ended) - 1
	if want := w.next(); time.Since(w.t0) > want {
		return fmt.Sprintf("%d fetches after %v", w.rounds, time.Since(w.t0))
	}
	query := "m"
	text := ""
	for _, l := range w.lines {
		text += ">>> " + l + "\n"
		switch l {
		case "m", "n":
			query = l
			text += fmt.Sprintf("Plotting %q...\n", l)
		default:
			text += "Unable"
		}
	}
	first, ok := w.first[query]
	if !ok {
		return fmt.Sprintf("the result of %q is never shown", query)
	}
	// the ranges that may've been carried along: of all its results, and
	// possibly of one of the previous query that was under way
	msg := ""
	for _, before := range []bool{false, true} {
		axes := plot.AutoAxes()
		if before {
			if query == "m" || !w.busy(w.entered.Sub(w.t0)) {
				break // none was under way
			}
			for k := first; k > 0; k-- {
				if !w.failed[k-1] {
					axes = covering(w.result("m", k-1), axes).PlatonicAxes
					break
				}
			}
		}
		var g *plot.PlatonicGraph
		for k := first; k <= last; k++ {
			if w.failed[k] {
				continue
			}
			g = covering(w.result(query, k), axes)
			axes = g.PlatonicAxes
		}
		if msg = w.compare(query, g); msg == "" {
			return w.promptText(text)
		}
	}
	return msg
}

// covering is a graph of the series whose value range covers them and that of the earlier axes.
func covering(set plot.SeriesSet, earlier plot.PlatonicAxes) *plot.PlatonicGraph {
	g := &plot.PlatonicGraph{Series: set, PlatonicAxes: plot.PlatonicAxes{
		DomainMin: math.MaxInt64, DomainMax: math.MinInt64,
		RangeMin: earlier.RangeMin, RangeMax: earlier.RangeMax,
	}}
	for _, s := range set {
		for _, p := range s.Points() {
			g.DomainMin, g.DomainMax = min(g.DomainMin, p.X()), max(g.DomainMax, p.X())
			g.RangeMin, g.RangeMax = min(g.RangeMin, p.Y()), max(g.RangeMax, p.Y())
		}
	}
	return g
}

// box is a view that draws nothing.
type box struct{ term.PositionBox }

func (e *box) SetBox(b term.PositionBox) { e.PositionBox = b }

// compare compares the screen with what it should show.
//
//go:norace
func (w *command) compare(query string, g *plot.PlatonicGraph) string {
	legend := &term.TextBox{}
	title := w.title(query)
	id := w.result(query, len(w.ended)-1)[0].Id()
	legend.WriteString("• "+title+"\n\n", tcell.StyleDefault.Foreground(tcell.Color(id%256)))
	area := &box{}
	view := &term.SplitView{
		Dock: term.PosBelow, DockSize: 9, Docked: area,
		Flexed: &term.SplitView{
			Dock: term.PosLeft, DockSize: len(title) + 3, DockMaxPercent: 20, Docked: legend,
			Flexed: &term.GraphView{
				Graph:         g,
				RangeLabeler:  func(v float64) string { return fmt.Sprintf("%5.5g", v) },
				DomainLabeler: func(v int64) string { return fmt.Sprintf("%dms", v) },
			},
		},
	}
	ref := newScreenOf(w.s.cols, w.s.rows, w.s.side)
	view.SetBox(term.PositionBox{Cols: w.s.cols, Rows: w.s.rows})
	view.FlushTo(ref)
	ref.Show()
	if !strings.Contains(ref.row(5), "┃") && !strings.Contains(ref.row(5), "┨") {
		return "no graph can be drawn"
	}
	for y := 0; y < area.StartRow; y++ {
		for x := 0; x < w.s.cols; x++ {
			want, got := ref.cells[x][y], w.s.shown[x][y]
			if got.ch > '\u2800' && got.ch <= '\u28ff' && got.sty != tcell.StyleDefault.Foreground(tcell.Color(id%256)) {
				return fmt.Sprintf("the plot at column %d of row %d isn't in the colour of the legend", x, y)
			}
			if want.ch == 0 {
				want = blank
			}
			if got.ch == 0 {
				got = blank
			}
			if got != want {
				var both []string
				for r := 0; r < w.s.rows; r++ {
					both = append(both, w.s.row(r)+" | "+ref.row(r))
				}
				return fmt.Sprintf("column %d of row %d shows %q, want %q; first shown after rounds %v\n%s", x, y, got.ch, want.ch, w.first, strings.Join(both, "\n"))
			}
		}
	}
	return ""
}

// promptText looks for the prompt's last line and the cursor.
//
//go:norace
func (w *command) promptText(text string) string {
	want := ">>> " + w.typed
	if !w.s.cursorOn {
		return "the cursor isn't shown"
	}
	at := w.s.cursor
	if at[1] < w.s.rows-9 || at[1] >= w.s.rows || at[0] != len(want) || !strings.HasPrefix(w.s.row(at[1]), want) {
		return fmt.Sprintf("cursor at %v of %dx%d after %q, want %q", at, w.s.cols, w.s.rows, w.s.row(at[1]), want)
	}
	// the lines above it
	var above []string
	for y := w.s.rows - 9; y < at[1]; y++ {
		above = append(above, strings.TrimRight(w.s.row(y), " "))
	}
	all := strings.Join(above, "\n")
	for _, l := range strings.Split(text, "\n") {
		if !strings.Contains(all, l) {
			return fmt.Sprintf("the prompt shows %q, want %q in there", all, l)
		}
	}
	return ""
}

//go:norace
func (w *command) judge() string {
	if w.verdict != "" {
		return w.verdict
	}
	if w.stage == 0 {
		// it ended by itself
		if msg := w.look(); msg != "" {
			return msg
		}
	}
	if !w.done || w.err != nil || w.s.inits != 1 || w.s.finis != 1 || w.out.Len() > 0 {
		return fmt.Sprintf("in the end: returned %v (%v), screen initialised %d and finalised %d times, output %q", w.done, w.err, w.s.inits, w.s.finis, w.out.String())
	}
	return ""
}

//go:norace
func (w *command) observed() string { return fmt.Sprint(w.first, w.rounds, w.s.shows, w.s.cols) }

func (w *command) end() {}
