package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/promql/parser"
	"k8s.io/cli-runtime/pkg/genericclioptions"
	"k8s.io/client-go/rest"

	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif/hook"
	"verif/vh"
)

// The two targets' samples at their k-th fetch.
func c26Samples(target, k int) []prom.ParsedSeries {
	var out []prom.ParsedSeries
	add := func(v float64, kvs ...string) {
		out = append(out, prom.ParsedSeries{Labels: labels.FromStrings(kvs...), Value: v})
	}
	vs := []float64{1, 50, -30, 4, 3.5, 2, 2, 7}
	if target == 0 {
		add(vs[k%len(vs)], "__name__", "m", "a", "x")
		if k != 2 {
			add(float64(10*k), "__name__", "n", "a", "long value of a label")
		}
		return out
	}
	add(vs[(k+3)%len(vs)]+0.5, "__name__", "m", "a", "y")
	if k > 1 {
		add(float64(-k), "__name__", "late", "b", fmt.Sprint("k", k%2))
	}
	return out
}

func exposition(ss []prom.ParsedSeries) string {
	var sb strings.Builder
	for _, s := range ss {
		var ls []string
		for _, l := range s.Labels {
			if l.Name != "__name__" {
				ls = append(ls, fmt.Sprintf("%s=%q", l.Name, l.Value))
			}
		}
		fmt.Fprintf(&sb, "%s{%s} %g\n", s.Labels.Get("__name__"), strings.Join(ls, ","), s.Value)
	}
	return sb.String()
}

var c26URLs = []string{"http://t0/metrics", "http://t1:99/m"}

type c26Cfg struct {
	targets        int
	period, window time.Duration
	initial        string
	cols, rows     int
	start          int // which target fails at the start (-1: none)
}

func (c c26Cfg) String() string {
	return fmt.Sprintf("%d targets, period %v, window %v, initial query %q, screen %dx%d, failing at start: %d", c.targets, c.period, c.window, c.initial, c.cols, c.rows, c.start)
}

// live is one run of the command.
type live struct {
	c26Cfg
	mu      sync.Mutex
	s       *fakeScreen
	out     bytes.Buffer
	screens int
	done    bool
	err     error
	t0      time.Time
	rounds  int // rounds of fetches begun
	fail    int // target that fails in the next round, -1: none
	how     int
	pos     int // next target to be fetched in this round
	bad     string
	want    int // rounds that should've been

	// the model
	query    string
	axes     plot.PlatonicAxes
	data     plot.SeriesSet
	drawn    bool
	graph    *plot.PlatonicGraph
	shadow   *prom.PeriodicData
	batch    []prom.ParsedSeries
	typed    string
	text     string // what's in the prompt
	quit     bool
	rejected int
	resized  bool
	tiny     bool
}

func (l *live) ScrapePrometheusEndpoint(context.Context, time.Time) ([]prom.ParsedSeries, error) {
	return l.batch, nil
}

var errNet = errors.New("no route")

type broken struct{ io.Reader }

func (b broken) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF {
		err = errNet
	}
	return n, err
}

// RoundTrip answers the command's requests.
func (l *live) RoundTrip(r *http.Request) (*http.Response, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	u := r.URL.String()
	if l.pos >= l.targets || u != c26URLs[l.pos] || r.Method != "GET" {
		l.bad = fmt.Sprintf("unexpected request %s %s (round %d, target %d)", r.Method, u, l.rounds, l.pos)
		return nil, errNet
	}
	k := l.rounds
	if l.pos == 0 {
		if at := l.t0.Add(time.Duration(k) * l.period); !time.Now().Equal(at) {
			l.bad = fmt.Sprintf("round %d at %v after the start, want %v", k, time.Since(l.t0), at.Sub(l.t0))
		}
		l.batch = nil
	}
	if l.done || l.quit {
		l.bad = "fetches go on after the end"
	}
	samples := c26Samples(l.pos, k)
	resp := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r, Header: http.Header{}}
	text := exposition(samples)
	resp.Body = io.NopCloser(strings.NewReader(text))
	if l.fail == l.pos {
		l.pos = 0
		l.rounds++
		l.fail = -1
		switch l.how % 4 {
		case 0:
			return nil, errNet
		case 1:
			resp.StatusCode, resp.Status = 503, "503 Service Unavailable"
		case 2:
			resp.Body = io.NopCloser(broken{strings.NewReader(text)})
		default:
			resp.Body = io.NopCloser(strings.NewReader(text + "m{"))
		}
		return resp, nil
	}
	for _, s := range samples {
		b := labels.NewBuilder(s.Labels)
		b.Set("instance", u)
		l.batch = append(l.batch, prom.ParsedSeries{Labels: b.Labels(), Value: s.Value, Timestamp: time.Now().UnixNano() / 1e6})
	}
	l.pos++
	if l.pos == l.targets {
		l.pos = 0
		l.rounds++
		if k > 0 {
			l.evaluate()
		}
	}
	return resp, nil
}

// evaluate does what a successful round should lead to.
func (l *live) evaluate() {
	if err := l.shadow.Scrape(context.Background()); err != nil {
		// can't be evaluated: what's shown stays
		return
	}
}

func (l *live) callback(res *promql.Result) error {
	if res.Err != nil {
		return res.Err
	}
	m, err := res.Matrix()
	if err != nil {
		return err
	}
	l.data = nil
	for _, s := range m {
		var vals []string
		for _, lb := range s.Metric {
			vals = append(vals, lb.Value)
		}
		x := c26Series{title: strings.Join(vals, ", "), id: plot.SeriesId(s.Metric.Hash()%255 + 1)}
		for _, p := range s.Points {
			x.pts = append(x.pts, c26Point{p.T, p.V})
		}
		l.data = append(l.data, x)
	}
	l.graph = &plot.PlatonicGraph{Series: l.data, PlatonicAxes: plot.PlatonicAxes{
		DomainMin: math.MaxInt64, DomainMax: math.MinInt64,
		RangeMin: l.axes.RangeMin, RangeMax: l.axes.RangeMax,
	}}
	for _, s := range l.data {
		for _, p := range s.Points() {
			l.graph.DomainMin, l.graph.DomainMax = min(l.graph.DomainMin, p.X()), max(l.graph.DomainMax, p.X())
			if y := p.Y(); math.IsNaN(y) || math.IsInf(y, 0) {
				continue
			}
			l.graph.RangeMin, l.graph.RangeMax = min(l.graph.RangeMin, p.Y()), max(l.graph.RangeMax, p.Y())
		}
	}
	l.axes = l.graph.PlatonicAxes
	l.drawn = true
	return nil
}

type c26Point struct {
	t int64
	v float64
}

func (p c26Point) X() int64   { return p.t }
func (p c26Point) Y() float64 { return p.v }

type c26Series struct {
	title string
	id    plot.SeriesId
	pts   []plot.Point
}

func (s c26Series) Title() string        { return s.title }
func (s c26Series) Id() plot.SeriesId    { return s.id }
func (s c26Series) Points() []plot.Point { return s.pts }

// phased shifts the prompt's reading polls against its main loop's.
type phased struct {
	prompt.ConsoleParser
	first bool
}

func (p *phased) Setup() error {
	p.first = true
	return p.ConsoleParser.Setup()
}

func (p *phased) Read() ([]byte, error) {
	if p.first {
		p.first = false
		time.Sleep(5 * time.Millisecond)
	}
	return p.ConsoleParser.Read()
}

func startLive(cfg c26Cfg) *live {
	l := &live{c26Cfg: cfg, fail: cfg.start, t0: time.Now(), axes: plot.AutoAxes()}
	l.shadow = prom.NewPeriodicData(l, prom.DefaultEngineOptions(cfg.period, 100000))
	l.shadow.Times = prom.Range{Window: cfg.window, Interval: cfg.period}
	l.shadow.Callback = l.callback
	l.s = newScreen(cfg.cols, cfg.rows)
	l.s.free = true
	l.s.onInit = func(s *fakeScreen) { s.PostEvent(tcell.NewEventResize(s.cols, s.rows)) }
	hook.MakeScreen = func() (tcell.Screen, error) { l.screens++; return l.s, nil }
	hook.MakePrompt = func(comp prompt.Completer, opts ...prompt.Option) *prompt.Prompt {
		pr := newPrompt(comp, opts...)
		setf(pr, "in", &phased{ConsoleParser: getf(pr, "in").(prompt.ConsoleParser)})
		return pr
	}
	mc := metrics.MetricsCommand{
		PromQCommand: cli.PromQCommand{
			RestConfig: &rest.Config{Host: "http://kube:8080", Transport: l},
			Streams:    genericclioptions.IOStreams{In: strings.NewReader(""), Out: &l.out, ErrOut: &l.out},
		},
		Period: cfg.period,
		Window: cfg.window,
	}
	go func() {
		err := mc.Run(cli.PromQFlags{Continuous: true, PromQuery: cfg.initial, HostNames: append([]string(nil), c26URLs[:cfg.targets]...), Output: "json"})
		l.mu.Lock()
		l.err, l.done = err, true
		l.mu.Unlock()
	}()
	synctest.Wait()
	return l
}

func (l *live) key(k tcell.Key, r rune) {
	l.s.PostEvent(tcell.NewEventKey(k, r, 0))
	synctest.Wait()
}

func (l *live) typeText(s string) {
	for _, r := range s {
		l.key(tcell.KeyRune, r)
	}
	l.typed += s
}

func (l *live) enter() {
	l.key(tcell.KeyEnter, 0)
	l.entered()
	time.Sleep(80 * time.Millisecond)
	synctest.Wait()
}

// entered tells the model that a line has been entered.
func (l *live) entered() {
	in := l.typed
	l.typed = ""
	l.text += ">>> " + in + "\n"
	switch {
	case in == "":
	case in == ":quit" || in == ":q":
		l.quit = true
	case in[0] == ':':
		l.text += fmt.Sprintf("no known command %q (hint: try %q)\n", in, ":quit")
	default:
		if _, err := parser.ParseExpr(in); err != nil {
			l.text += fmt.Sprintf("Unable to set query: %v\n", err)
			return
		}
		l.query = in
		if err := l.shadow.SetQuery(context.Background(), in); err != nil {
			panic(err)
		}
		l.axes = plot.AutoAxes()
		l.text += fmt.Sprintf("Plotting %q...\n", in)
		if in == "quit" {
			l.text += "(hint: use \":quit\" to quit)\n"
		}
	}
}

func (l *live) tick() {
	l.want++
	time.Sleep(time.Until(l.t0.Add(time.Duration(l.want)*l.period + 43*time.Millisecond)))
	synctest.Wait()
}

func (l *live) resize(cols, rows int) {
	l.s.mu.Lock()
	l.s.cols, l.s.rows = cols, rows
	l.s.mu.Unlock()
	l.resized = true
	l.tiny = l.tiny || cols < 20 // go-prompt learns of it too late
	l.s.PostEvent(tcell.NewEventResize(cols, rows))
	synctest.Wait()
}

// emptyView draws nothing.
type emptyView struct{ box term.PositionBox }

func (e *emptyView) SetBox(b term.PositionBox) { e.box = b }
func (*emptyView) FlushTo(tcell.Screen)        {}

// check compares what can be seen with what should be.
func (l *live) check() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.bad != "" {
		return l.bad
	}
	if l.out.Len() > 0 {
		return fmt.Sprintf("%q is printed", l.out.String())
	}
	if l.quit {
		if !l.done || l.err != nil || l.s.finis != 1 || l.s.inits != 1 {
			return fmt.Sprintf("after quitting: returned %v (%v), screen initialised %d and finalised %d times", l.done, l.err, l.s.inits, l.s.finis)
		}
		return ""
	}
	if l.done {
		return fmt.Sprintf("the command ends with %v", l.err)
	}
	if l.s.inits != 1 || l.s.finis != 0 || l.screens != 1 {
		return fmt.Sprintf("screen initialised %d and finalised %d times, %d made", l.s.inits, l.s.finis, l.screens)
	}
	if l.rounds != l.want+1 || l.pos != 0 {
		return fmt.Sprintf("%d rounds (and %d targets), want %d", l.rounds, l.pos, l.want+1)
	}
	// legend and graph
	key := &term.TextBox{}
	keySize := 1
	if !l.drawn {
		keySize = 10
	}
	for _, s := range l.data {
		keySize = max(keySize, len(s.Title())+3)
		sty := tcell.StyleDefault.Foreground(tcell.Color(s.Id() % 256))
		key.WriteString("• "+s.Title()+"\n\n", sty)
	}
	area := &emptyView{}
	view := &term.SplitView{
		Dock: term.PosBelow, DockSize: 9, Docked: area,
		Flexed: &term.SplitView{
			Dock: term.PosLeft, DockSize: keySize, DockMaxPercent: 20, Docked: key,
			Flexed: &term.GraphView{
				Graph:        l.graph,
				RangeLabeler: func(v float64) string { return fmt.Sprintf("%5.5g", v) },
				DomainLabeler: func(v int64) string {
					t := time.Unix(v/1000, v%1000*1e6).UTC()
					switch {
					case l.window >= 240*time.Hour:
						return t.Format("Jan _2")
					case l.window >= 24*time.Hour:
						return t.Format("_2 15h")
					case l.window >= time.Hour:
						return t.Format("15:04")
					case l.window >= time.Minute:
						return t.Format("04:05")
					}
					return fmt.Sprintf("%dms", v)
				},
			},
		},
	}
	ref := newScreen(l.s.cols, l.s.rows)
	view.SetBox(term.PositionBox{Cols: l.s.cols, Rows: l.s.rows})
	view.FlushTo(ref)
	in := func(x, y int) bool {
		b := area.box
		return x >= b.StartCol && x < b.StartCol+b.Cols && y >= b.StartRow && y < b.StartRow+b.Rows
	}
	l.s.mu.Lock()
	defer l.s.mu.Unlock()
	at := func(x, y int) cellv {
		if c, ok := l.s.shown[[2]int{x, y}]; ok {
			return c
		}
		return blank
	}
	colours := map[tcell.Style]bool{}
	for _, s := range l.data {
		colours[tcell.StyleDefault.Foreground(tcell.Color(s.Id()%256))] = true
	}
	for y := 0; y < l.s.rows; y++ {
		for x := 0; x < l.s.cols; x++ {
			if got := at(x, y); !in(x, y) && got.ch > '\u2800' && got.ch <= '\u28ff' && !colours[got.sty] {
				return fmt.Sprintf("the plot at column %d of row %d isn't in the colour of an entry of the legend\n%s", x, y, dump(l.s, ref))
			}
			want, ok := ref.cells[[2]int{x, y}]
			if !ok {
				want = blank
			}
			if got := at(x, y); !in(x, y) && got != want {
				return fmt.Sprintf("column %d of row %d shows %q %x, want %q %x; query in force %q\n%s", x, y, got.ch, got.sty, want.ch, want.sty, l.query, dump(l.s, ref))
			}
		}
	}
	// the prompt: its rows, from the cursor's upwards
	b := area.box
	if b.Cols == 0 || b.Rows == 0 {
		return ""
	}
	const tall = 80
	pt := newRef(b.Cols, tall)
	pt.write(l.text + ">>> " + l.typed)
	if !l.s.cursorOn {
		return "the cursor isn't shown"
	}
	cur := l.s.cursor
	if l.resized {
		// what had been written isn't laid out again
		// (behind the last column: the next character wraps)
		if !in(cur[0], cur[1]) && !(cur[0] == b.StartCol+b.Cols && in(cur[0]-1, cur[1])) {
			return fmt.Sprintf("the cursor is at %v, outside the prompt %v", cur, b)
		}
		if n := len(l.typed) + 4; !l.tiny && n < b.Cols {
			row := ""
			for x := 0; x < n; x++ {
				row += string(at(x+b.StartCol, cur[1]).ch)
			}
			if row != ">>> "+l.typed || cur[0]-b.StartCol != n {
				return fmt.Sprintf("the cursor is at %v after %q, want %q", cur, row, ">>> "+l.typed)
			}
		}
		return ""
	}
	if !in(cur[0], cur[1]) || cur[0]-b.StartCol != pt.col {
		return fmt.Sprintf("the cursor is at %v, want column %d of the prompt (%v) after %q", cur, pt.col, b, l.text+">>> "+l.typed)
	}
	for y := b.StartRow; y < b.StartRow+b.Rows; y++ {
		row := pt.row - cur[1] + y
		if l.typed != "" && y > cur[1] {
			break // suggestions
		}
		for x := 0; x < b.Cols; x++ {
			want := blank
			if row >= 0 && row < tall {
				w := pt.at(x, row)
				if w.any {
					continue
				}
				want = w.cellv
			}
			if got := at(x+b.StartCol, y); got.ch != want.ch || got.comb != want.comb {
				return fmt.Sprintf("the prompt's row %d (cursor %v) shows %q at column %d, want %q; want text %q\n%s", y-b.StartRow, cur, got.ch, x, want.ch, l.text+">>> "+l.typed, dump(l.s, ref))
			}
		}
	}
	return ""
}

func dump(s, ref *fakeScreen) string {
	var sb strings.Builder
	for y := 0; y < s.rows; y++ {
		for _, m := range []map[[2]int]cellv{s.shown, ref.cells} {
			for x := 0; x < s.cols; x++ {
				c, ok := m[[2]int{x, y}]
				if !ok {
					c = blank
				}
				sb.WriteRune(c.ch)
			}
			sb.WriteString(" | ")
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

type liveOp struct {
	name string
	do   func(l *live)
}

func enterOp(s string) liveOp {
	return liveOp{fmt.Sprintf("enter %q", s), func(l *live) { l.typeText(s); l.enter() }}
}

var liveOps = []liveOp{
	{"round", func(l *live) { l.tick() }},
	{"round, first target failing", func(l *live) { l.fail = 0; l.how++; l.tick() }},
	{"round, last target failing", func(l *live) { l.fail = l.targets - 1; l.how++; l.tick() }},
	enterOp("n"),
	enterOp("sum(m)"),
	enterOp("m{"),
	enterOp("late"),
	enterOp(":q"),
	enterOp(":help"),
	enterOp(""),
	{"type n", func(l *live) { l.typeText("n") }},
	{"40x17", func(l *live) { l.resize(40, 17) }},
	{"120x50", func(l *live) { l.resize(120, 50) }},
	enterOp("\"s\""),
	enterOp("quit"),
	enterOp(":quit"),
	{"2 rounds", func(l *live) { l.tick(); l.tick() }},
	{"screen too small", func(l *live) { l.resize(9, 10) }},
}

func boundsC26(q bool) string {
	return fmt.Sprintf("every sequence of <=%d operations out of %d after the first round (rounds succeeding and failing at either target, entering accepted, rejected and unevaluable queries, commands and nothing, typing without entering, resizing) x %d configurations (1-2 targets, periods, windows, initial queries, screen sizes), every pair of operations repeated to 24 (thorough: 80), and every failure at the start; whole program under a virtual clock, network and screen faked",
		map[bool]int{true: 3, false: 4}[q], len(liveOps), len(c26Cfgs))
}

var c26Cfgs = []c26Cfg{
	{2, 603 * time.Millisecond, 603 * time.Millisecond, "m", 80, 30, -1},
	{1, 1501 * time.Millisecond, 90 * time.Second, "", 100, 40, -1},
	{2, 607 * time.Millisecond, 15 * time.Second, "m{", 60, 24, -1},
	{2, 10007 * time.Millisecond, 2 * time.Hour, "n", 90, 30, -1},
	{1, 601 * time.Second, 49 * time.Hour, "m", 80, 24, -1},
	{2, 3601 * time.Second, 300 * time.Hour, "sum(m)", 80, 30, -1},
}

func runC26(h *vh.H) {
	run := func(cfg c26Cfg, ops []int) {
		ops = append([]int(nil), ops...)
		h.Case(func() string {
			var s []string
			for _, o := range ops {
				s = append(s, liveOps[o].name)
			}
			return fmt.Sprintf("%v: %s", cfg, strings.Join(s, ", "))
		}, func(c *vh.C) {
			fail, done := "", false
			synctest.Test(theT, func(t *testing.T) {
				defer func() { done = true }()
				defer vh.Recover(&fail)
				fail = caseC26(c, cfg, ops)
			})
			if fail != "" {
				c.Failf("%s", fail)
			}
			if !done {
				c.Failf("bubble ended early")
			}
		})
	}
	for _, cfg := range c26Cfgs {
		for cfg.start = 0; cfg.start < cfg.targets; cfg.start++ {
			run(cfg, nil)
		}
	}
	n := 0
	vh.Seqs(len(liveOps), 0, h.Pick(3, 4), func(ix []int) {
		if h.Stop() {
			return
		}
		for i, o := range ix {
			if (o == 7 || o == 15) && i < len(ix)-1 {
				return
			}
		}
		n++
		for i, cfg := range c26Cfgs {
			// idling costs, since the prompt polls every 10ms
			if cfg.period > 10*time.Minute && len(ix) > h.Pick(1, 2) || cfg.period > 50*time.Minute && len(ix) > h.Pick(0, 1) {
				continue
			}
			if i > 0 && len(ix) >= h.Pick(3, 4) && i != 1+n%3 {
				continue
			}
			run(cfg, ix)
		}
	})
	// long sessions
	lengths := []int{24}
	if !h.Quick() {
		lengths = []int{25, 80}
	}
	vh.Pumped(len(liveOps), lengths, func(ix []int) {
		if a, b := ix[0], ix[1]; a == 7 || a == 15 || b == 7 || b == 15 || h.Stop() {
			return
		}
		for i, cfg := range c26Cfgs {
			if cfg.period <= time.Minute && (!h.Quick() || (ix[0]+ix[1])%2 == i%2) {
				run(cfg, ix)
			}
		}
	})
}

func caseC26(c *vh.C, cfg c26Cfg, ops []int) string {
	l := startLive(cfg)
	defer l.end()
	if cfg.start >= 0 {
		if !l.done || l.err == nil || l.screens > 0 || l.out.Len() > 0 {
			return fmt.Sprintf("a target fails at the start: returned %v (%v), %d screens, output %q", l.done, l.err, l.screens, l.out.String())
		}
		c.Outcome("failed at start")
		return ""
	}
	l.typed = cfg.initial
	l.entered()
	time.Sleep(80 * time.Millisecond)
	synctest.Wait()
	if msg := l.check(); msg != "" {
		return "before the first round: " + msg
	}
	l.tick()
	if msg := l.check(); msg != "" {
		return "after the first round: " + msg
	}
	for i, o := range ops {
		if !l.quit && time.Until(l.t0.Add(time.Duration(l.want+1)*l.period)) < 250*time.Millisecond {
			// the next round would come amidst the operation
			l.tick()
			if msg := l.check(); msg != "" {
				return fmt.Sprintf("at the round before operation %d: %s", i, msg)
			}
		}
		liveOps[o].do(l)
		c.Trans(1)
		time.Sleep(21 * time.Millisecond)
		synctest.Wait()
		if msg := l.check(); msg != "" {
			return fmt.Sprintf("after operation %d: %s", i, msg)
		}
	}
	c.State(cfg.String(), fmt.Sprint(l.drawn, l.text, l.typed, l.query, l.rounds, l.axes, l.s.cols))
	c.Trace()
	if l.quit {
		time.Sleep(3 * l.period)
		synctest.Wait()
		if msg := l.check(); msg != "" {
			return "long after the end: " + msg
		}
	}
	c.Outcome(fmt.Sprint(l.quit, l.drawn, len(l.data)))
	return ""
}

// end makes the command's goroutines finish.
func (l *live) end() {
	l.mu.Lock()
	done := l.done
	l.typed = ""
	l.mu.Unlock()
	for i := 0; i < 3 && !done; i++ {
		l.resize(80, 30)
		for j := 0; j < 12; j++ {
			l.key(tcell.KeyBackspace2, 0)
		}
		time.Sleep(time.Second)
		for _, r := range ":q" {
			l.key(tcell.KeyRune, r)
		}
		l.key(tcell.KeyEnter, 0)
		time.Sleep(time.Second)
		synctest.Wait()
		l.mu.Lock()
		done = l.done
		l.mu.Unlock()
	}
	time.Sleep(time.Second)
}
