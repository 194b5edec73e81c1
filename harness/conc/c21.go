package main

import (
	"fmt"
	"strings"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif/vh"
	"verif/vsync"
)

var c21Keys = []*tcell.EventKey{runeKey('a'), runeKey('é'), specialKey(tcell.KeyUp), specialKey(tcell.KeyEnter), specialKey(tcell.KeyPrint)}

// what the prompt gets for them
var c21Codes = []string{"a", "é", codeOf(prompt.Up), codeOf(prompt.ControlM), ""}

func codeOf(k prompt.Key) string {
	for _, s := range prompt.ASCIISequences {
		if s.Key == k {
			return string(s.ASCIICode)
		}
	}
	panic("no code")
}

func boundsC21(q bool) string {
	return fmt.Sprintf("every interleaving with <=%d preemptions (fewer for longer sequences, and when others resize the prompt and ask for its size) of a thread that types <=%d keys out of %d (ASCII, multi-byte, arrow, enter, one without a code) with one that reads, under the race detector",
		map[bool]int{true: 2, false: 5}[q], map[bool]int{true: 3, false: 4}[q], len(c21Keys))
}

func runC21(h *vh.H) {
	vh.Seqs(len(c21Keys), 0, h.Pick(3, 4), func(ix []int) {
		ix = append([]int{}, ix...)
		for _, resize := range []bool{false, true} {
			if resize && len(ix) > h.Pick(2, 4) {
				continue
			}
			bound := h.Pick(2, 5)
			if len(ix) > 2 || resize {
				bound = h.Pick(1, 3)
			}
			if len(ix) > 3 {
				bound = 2
			}
			h.Case(func() string { return fmt.Sprintf("concurrent: keys %v, resizing %v, bound %d", ix, resize, bound) }, func(c *vh.C) {
				explore(c, bound, fmt.Sprint(ix, resize), func() world { return newKeysWorld(ix, resize) })
			})
		}
	})
}

type keysWorld struct {
	con    *console
	ix     []int
	resize bool
	reads  []string
	errs   int
	size   string
}

func newKeysWorld(ix []int, resize bool) *keysWorld {
	w := &keysWorld{con: newConsole(newScreen(20, 5), nil), ix: ix, resize: resize}
	w.con.in.Setup()
	return w
}

func (w *keysWorld) read() bool {
	b, err := w.con.in.Read()
	if err != nil {
		w.errs++
		return false
	}
	w.reads = append(w.reads, string(b))
	if s := string(b); s == codeOf(prompt.Enter) || s == codeOf(prompt.ControlM) {
		w.con.in.Setup() // the next line
	}
	return true
}

func (w *keysWorld) threads() []func() {
	t := []func(){
		func() {
			for _, i := range w.ix {
				w.con.v.HandleKey(c21Keys[i])
			}
		},
		func() {
			for range w.ix {
				w.read()
			}
			vsync.Point()
			w.read()
		},
	}
	if w.resize {
		t = append(t, func() {
			w.con.v.SetBox(term.PositionBox{Cols: 9, Rows: 2})
		}, func() {
			sz := w.con.in.GetWinSize()
			w.size = fmt.Sprint(sz.Col, "x", sz.Row)
		})
	}
	return t
}

func (w *keysWorld) idle() bool { return false }

func (w *keysWorld) judge() string {
	if w.resize {
		if w.size != "20x5" && w.size != "9x2" {
			return "size read: " + w.size
		}
		if sz := w.con.in.GetWinSize(); sz.Col != 9 || sz.Row != 2 {
			return fmt.Sprint("size in the end: ", sz)
		}
	}
	for n := 0; n < len(w.ix)+3; n++ {
		w.read()
	}
	var want []string
	for _, i := range w.ix {
		if c21Codes[i] != "" {
			want = append(want, c21Codes[i])
		}
	}
	rest := want
	for _, r := range w.reads {
		if len(rest) > 0 && r == rest[0] {
			rest = rest[1:]
			continue
		}
		got := ""
		for len(rest) > 0 && len(got) < len(r) && (rest[0] == "a" || rest[0] == "é") {
			got += rest[0]
			rest = rest[1:]
		}
		if got != r {
			return fmt.Sprintf("read %q, want %q", w.reads, want)
		}
	}
	if len(rest) > 0 {
		return fmt.Sprintf("read %q, want %q", w.reads, want)
	}
	return ""
}

func (w *keysWorld) observed() string { return strings.Join(w.reads, "|") + w.size }
func (w *keysWorld) end()             {}
