package main

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif/vh"
	"verif/vsync"
)

func setf(ptr interface{}, name string, x interface{}) {
	f := reflect.ValueOf(ptr).Elem().FieldByName(name)
	f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	f.Set(reflect.ValueOf(x))
}

func getf(ptr interface{}, name string) interface{} {
	f := reflect.ValueOf(ptr).Elem().FieldByName(name)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
}

// newPrompt is prompt.New without opening /dev/tty for the default input.
func newPrompt(comp prompt.Completer, opts ...prompt.Option) *prompt.Prompt {
	r := &prompt.Render{}
	setf(r, "prefix", "> ")
	setf(r, "livePrefixCallback", func() (string, bool) { return "", false })
	p := &prompt.Prompt{}
	setf(p, "renderer", r)
	setf(p, "buf", prompt.NewBuffer())
	setf(p, "history", prompt.NewHistory())
	setf(p, "completion", prompt.NewCompletionManager(comp, 6))
	setf(p, "keyBindMode", prompt.EmacsKeyBind)
	for _, o := range opts {
		if err := o(p); err != nil {
			panic(err)
		}
	}
	return p
}

func noSuggestions(prompt.Document) []prompt.Suggest { return nil }

// phased shifts the prompt's reading polls against its main loop's, so that
// the two never happen at the same instant of virtual time, and enters a last
// line once the exploration is over.
type phased struct {
	prompt.ConsoleParser
	first bool
	over  *bool
}

func (p *phased) Setup() error {
	p.first = true
	return p.ConsoleParser.Setup()
}

func (p *phased) Read() ([]byte, error) {
	if p.first {
		p.first = false
		time.Sleep(5 * time.Millisecond)
	}
	if is(p.over) {
		return []byte{'\r'}, nil
	}
	return p.ConsoleParser.Read()
}

//go:norace
func is(p *bool) bool { return *p }

// console is the prompt's view of a PromptView: where it reads from and writes to.
type console struct {
	v   *term.PromptView
	in  prompt.ConsoleParser
	out prompt.ConsoleWriter
}

// newConsole sets up a PromptView whose input loop ends at once, so that the
// caller can drive its reader and writer directly.
func newConsole(screen *screen, initial *string) *console {
	c := &console{}
	c.v = &term.PromptView{
		Screen: screen,
		SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt {
			p := newPrompt(noSuggestions, opts...)
			c.in = getf(p, "in").(prompt.ConsoleParser)
			c.out = getf(getf(p, "renderer"), "out").(prompt.ConsoleWriter)
			return p
		},
		HandleInput: func(string) (*string, bool) { return nil, false },
	}
	ctx, cancel := context.WithCancel(context.Background())
	c.v.OnSetup = cancel
	if err := c.v.Run(ctx, initial, func() {}); err != nil {
		panic(err)
	}
	c.v.SetBox(term.PositionBox{Cols: 20, Rows: 5})
	synctest.Wait()
	return c
}

// world is one run of a scenario: its threads, what happens when none of them
// can go on, and what must be true in the end.
type world interface {
	threads() []func()
	idle() bool
	judge() string
	end()
	observed() string
}

// explore runs every schedule of a scenario with at most that many preemptions.
func explore(c *vh.C, bound int, name string, make func() world) {
	exploreAll(c, &vsync.Explorer{Bound: bound, MaxSteps: 5000, Daemons: true}, name, make)
}

// exploreDelays runs every schedule of a scenario that deviates at most that
// often from running each thread for as long as it can.
func exploreDelays(c *vh.C, bound int, name string, make func() world) {
	exploreAll(c, &vsync.Explorer{Bound: bound, MaxSteps: 5000, Daemons: true, Delays: true}, name, make)
}

// exploreReversed is exploreDelays, but lets the newest goroutine go first.
func exploreReversed(c *vh.C, bound int, name string, make func() world) {
	exploreAll(c, &vsync.Explorer{Bound: bound, MaxSteps: 5000, Daemons: true, Delays: true, Reverse: true}, name, make)
}

func exploreAll(c *vh.C, e *vsync.Explorer, name string, make func() world) {
	var fail string
	done := false
	theT.Run("case", func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			defer func() { done = true }()
			defer vh.Recover(&fail)
			for e.Next() {
				if e.Runs%16 == 0 {
					c.Touch()
					if c.Expired() {
						break
					}
				}
				w := make()
				msg := e.Run(func() {
					for _, f := range w.threads() {
						vsync.Spawn(f)
					}
				}, w.idle)
				if msg == "" {
					msg = w.judge()
				}
				if msg != "" {
					// what's been started may not end any more
					c.Die("%s\nschedule: %s", msg, e.Trace())
				}
				w.end()
				c.Trace()
				c.Outcome(name, w.observed())
				c.State(name, w.observed(), fmt.Sprint(e.Choices()))
			}
			c.Trans(int(e.Steps))
			c.NoteMax("longest schedule", e.MaxDepth)
			c.Note("schedules", e.Runs)
		})
	})
	if fail != "" {
		c.Failf("%s", fail)
	}
	if !done {
		c.Failf("bubble ended early")
	}
}

func runeKey(r rune) *tcell.EventKey         { return tcell.NewEventKey(tcell.KeyRune, r, 0) }
func specialKey(k tcell.Key) *tcell.EventKey { return tcell.NewEventKey(k, 0, 0) }

func join(l []string) string { return strings.Join(l, "; ") }
