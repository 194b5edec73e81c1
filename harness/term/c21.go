package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	"verif/vh"
)

// keyNames pairs the special keys with the prompt's keys of the same name.
var keyNames = func() map[tcell.Key][]prompt.Key {
	m := map[tcell.Key][]prompt.Key{
		tcell.KeyCtrlA: {prompt.ControlA}, tcell.KeyCtrlB: {prompt.ControlB}, tcell.KeyCtrlC: {prompt.ControlC},
		tcell.KeyCtrlD: {prompt.ControlD}, tcell.KeyCtrlE: {prompt.ControlE}, tcell.KeyCtrlF: {prompt.ControlF},
		tcell.KeyCtrlG: {prompt.ControlG}, tcell.KeyCtrlJ: {prompt.ControlJ}, tcell.KeyCtrlK: {prompt.ControlK},
		tcell.KeyCtrlL: {prompt.ControlL}, tcell.KeyCtrlN: {prompt.ControlN}, tcell.KeyCtrlO: {prompt.ControlO},
		tcell.KeyCtrlP: {prompt.ControlP}, tcell.KeyCtrlQ: {prompt.ControlQ}, tcell.KeyCtrlR: {prompt.ControlR},
		tcell.KeyCtrlS: {prompt.ControlS}, tcell.KeyCtrlT: {prompt.ControlT}, tcell.KeyCtrlU: {prompt.ControlU},
		tcell.KeyCtrlV: {prompt.ControlV}, tcell.KeyCtrlW: {prompt.ControlW}, tcell.KeyCtrlX: {prompt.ControlX},
		tcell.KeyCtrlY: {prompt.ControlY}, tcell.KeyCtrlZ: {prompt.ControlZ},
		tcell.KeyCtrlSpace: {prompt.ControlSpace}, tcell.KeyCtrlBackslash: {prompt.ControlBackslash},
		tcell.KeyCtrlRightSq: {prompt.ControlSquareClose}, tcell.KeyCtrlCarat: {prompt.ControlCircumflex},
		tcell.KeyCtrlUnderscore: {prompt.ControlUnderscore},
		// same key under several names
		tcell.KeyBackspace: {prompt.Backspace, prompt.ControlH}, tcell.KeyBackspace2: {prompt.Backspace},
		tcell.KeyTab: {prompt.Tab, prompt.ControlI}, tcell.KeyEnter: {prompt.Enter, prompt.ControlM},
		tcell.KeyEscape: {prompt.Escape},
		tcell.KeyUp:     {prompt.Up}, tcell.KeyDown: {prompt.Down}, tcell.KeyLeft: {prompt.Left}, tcell.KeyRight: {prompt.Right},
		tcell.KeyHome: {prompt.Home}, tcell.KeyEnd: {prompt.End}, tcell.KeyPgUp: {prompt.PageUp}, tcell.KeyPgDn: {prompt.PageDown},
		tcell.KeyInsert: {prompt.Insert}, tcell.KeyDelete: {prompt.Delete}, tcell.KeyBacktab: {prompt.BackTab},
		tcell.KeyF1: {prompt.F1}, tcell.KeyF2: {prompt.F2}, tcell.KeyF3: {prompt.F3}, tcell.KeyF4: {prompt.F4},
		tcell.KeyF5: {prompt.F5}, tcell.KeyF6: {prompt.F6}, tcell.KeyF7: {prompt.F7}, tcell.KeyF8: {prompt.F8},
		tcell.KeyF9: {prompt.F9}, tcell.KeyF10: {prompt.F10}, tcell.KeyF11: {prompt.F11}, tcell.KeyF12: {prompt.F12},
		tcell.KeyF13: {prompt.F13}, tcell.KeyF14: {prompt.F14}, tcell.KeyF15: {prompt.F15}, tcell.KeyF16: {prompt.F16},
		tcell.KeyF17: {prompt.F17}, tcell.KeyF18: {prompt.F18}, tcell.KeyF19: {prompt.F19}, tcell.KeyF20: {prompt.F20},
		tcell.KeyF21: {prompt.F21}, tcell.KeyF22: {prompt.F22}, tcell.KeyF23: {prompt.F23}, tcell.KeyF24: {prompt.F24},
	}
	return m
}()

var modded = map[tcell.Key][2]prompt.Key{ // with control, with shift
	tcell.KeyUp: {prompt.ControlUp, prompt.ShiftUp}, tcell.KeyDown: {prompt.ControlDown, prompt.ShiftDown},
	tcell.KeyLeft: {prompt.ControlLeft, prompt.ShiftLeft}, tcell.KeyRight: {prompt.ControlRight, prompt.ShiftRight},
	tcell.KeyDelete: {prompt.ControlDelete, prompt.ShiftDelete},
}

// key is a typed key.
type key struct {
	k   tcell.Key
	r   rune
	mod tcell.ModMask
}

func (k key) String() string {
	if k.k == readKey {
		return "(read)"
	}
	if k.k == tcell.KeyRune {
		return fmt.Sprintf("%q", k.r)
	}
	return fmt.Sprintf("<%v mod %d>", k.event().Name(), k.mod)
}

func (k key) event() *tcell.EventKey { return tcell.NewEventKey(k.k, k.r, k.mod) }

// codes are the byte sequences that would be right for a special key; none if
// the prompt knows no such key.
func (k key) codes() [][]byte {
	keys := keyNames[k.k]
	if m, ok := modded[k.k]; ok {
		switch {
		case k.mod&tcell.ModCtrl != 0 && k.mod&tcell.ModShift != 0:
			keys = []prompt.Key{m[0], m[1]}
		case k.mod&tcell.ModCtrl != 0:
			keys = []prompt.Key{m[0]}
		case k.mod&tcell.ModShift != 0:
			keys = []prompt.Key{m[1]}
		}
	}
	var out [][]byte
	for _, n := range keys {
		for _, s := range prompt.ASCIISequences {
			if s.Key == n {
				out = append(out, s.ASCIICode)
			}
		}
	}
	return out
}

// lossless checks that what has been read is exactly what was typed.
func lossless(typed []key, reads [][]byte) string {
	i := 0
	for n, b := range reads {
		for i < len(typed) && typed[i].k != tcell.KeyRune && len(typed[i].codes()) == 0 {
			i++ // the prompt has no such key
		}
		if i >= len(typed) {
			return fmt.Sprintf("read #%d is %q, but nothing is left to be read", n+1, b)
		}
		if typed[i].k != tcell.KeyRune {
			ok := false
			for _, code := range typed[i].codes() {
				ok = ok || bytes.Equal(code, b)
			}
			if !ok {
				return fmt.Sprintf("read #%d is %q, want one of the codes %q of %v", n+1, b, typed[i].codes(), typed[i])
			}
			i++
			continue
		}
		if len(b) == 0 || !utf8.Valid(b) {
			return fmt.Sprintf("read #%d is %q, which isn't whole characters", n+1, b)
		}
		for _, r := range string(b) {
			// keys the prompt doesn't know may be skipped within the text
			for i < len(typed) && typed[i].k != tcell.KeyRune && len(typed[i].codes()) == 0 {
				i++
			}
			if i >= len(typed) || typed[i].k != tcell.KeyRune || typed[i].r != r {
				return fmt.Sprintf("read #%d is %q, want the text typed at %v", n+1, b, typed[min(i, len(typed)-1):])
			}
			i++
		}
	}
	for ; i < len(typed); i++ {
		if typed[i].k == tcell.KeyRune || len(typed[i].codes()) > 0 {
			return fmt.Sprintf("%v was never read (reads: %q)", typed[i:], reads)
		}
	}
	return ""
}

// reader drives the prompt's reading side.
type reader struct {
	*console
	reads [][]byte
}

// read reads once, and starts the next line if one has been completed.
func (r *reader) read() bool {
	b, err := r.in.Read()
	if err != nil {
		return false
	}
	r.reads = append(r.reads, append([]byte{}, b...))
	if k := prompt.GetKey(b); k == prompt.Enter || k == prompt.ControlM || k == prompt.ControlJ {
		if err := r.in.Setup(); err != nil {
			panic(err)
		}
	}
	return true
}

// drain reads until nothing can be left.
func (r *reader) drain(n int) {
	for fails := 0; fails <= n+1; {
		if r.read() {
			fails = 0
		} else {
			fails++
		}
	}
}

var typing = []key{
	{k: tcell.KeyRune, r: 'a'}, {k: tcell.KeyRune, r: 'é'}, {k: tcell.KeyRune, r: '世'}, {k: tcell.KeyRune, r: '😀'},
	{k: tcell.KeyEnter}, {k: tcell.KeyTab}, {k: tcell.KeyLeft}, {k: tcell.KeyLeft, mod: tcell.ModCtrl},
	{k: tcell.KeyEscape}, {k: tcell.KeyF5}, {k: tcell.KeyBackspace2}, {k: tcell.KeyCtrlA},
	{k: tcell.KeyF40}, {k: tcell.KeyCtrlJ},
}

func boundsC21(q bool) string {
	return fmt.Sprintf("every key tcell knows x 8 modifier combinations, in 9 contexts; every sequence of <=%d events out of %d keys (ASCII, 2-4 byte characters, special keys, keys without a code) and a read by the prompt; runs of 1-300 keys", map[bool]int{true: 5, false: 6}[q], len(typing))
}

func runC21(h *vh.H) {
	check := func(name func() string, evs []key, readAfter func(i int) bool) {
		h.Case(name, func(c *vh.C) {
			r := &reader{console: newConsole(newScreen(1, 1), nil)}
			if err := r.in.Setup(); err != nil {
				panic(err)
			}
			for i, k := range evs {
				if k.k != readKey {
					r.v.HandleKey(k.event())
				} else {
					r.read()
				}
				if readAfter != nil && readAfter(i) {
					r.read()
				}
			}
			r.drain(len(evs))
			c.Trans(len(evs) + len(r.reads))
			var typed []key
			for _, k := range evs {
				if k.k != readKey {
					typed = append(typed, k)
				}
			}
			if msg := lossless(typed, r.reads); msg != "" {
				c.Failf("%s", msg)
			}
			c.Trace()
			c.Outcome(fmt.Sprintf("%q", r.reads))
		})
	}
	a, b := key{k: tcell.KeyRune, r: 'a'}, key{k: tcell.KeyRune, r: 'é'}
	var keys []tcell.Key
	for k := tcell.Key(0); k <= 31; k++ {
		keys = append(keys, k)
	}
	keys = append(keys, tcell.KeyBackspace2)
	for k := tcell.KeyRune + 1; k <= tcell.KeyF64; k++ {
		keys = append(keys, k)
	}
	for _, k := range keys {
		for mod := tcell.ModMask(0); mod < 8; mod++ {
			x := key{k: k, mod: mod}
			rd := key{k: readKey}
			for _, evs := range [][]key{{x}, {a, x}, {x, a}, {a, x, b}, {a, rd, x, b}, {x, x}, {x, rd, a}, {b, x, x, a}, {a, x, rd, b}} {
				check(func() string { return fmt.Sprint(evs) }, evs, nil)
			}
		}
	}
	// every character up to U+2FFF and some beyond, alone and between others
	for r := rune(' '); r < 0x30000; r++ {
		if r == 0x7f || r >= 0xd800 && r < 0xe000 {
			continue
		}
		if r > 0x3000 && r%257 != 0 {
			continue
		}
		evs := []key{b, {k: tcell.KeyRune, r: r}, a}
		check(func() string { return fmt.Sprint(evs) }, evs, nil)
	}
	for n := 1; n <= 300; n++ {
		for _, pat := range [][]key{{a}, {b}, {{k: tcell.KeyEnter}}, {a, {k: tcell.KeyUp}}, {{k: tcell.KeyTab}, b, a}} {
			var evs []key
			for i := 0; i < n; i++ {
				evs = append(evs, pat[i%len(pat)])
			}
			check(func() string { return fmt.Sprintf("%d keys from %v", n, pat) }, evs, nil)
			check(func() string { return fmt.Sprintf("%d keys from %v, every 7th read", n, pat) }, evs, func(i int) bool { return i%7 == 6 })
		}
	}
	ab := append([]key{{k: readKey}}, typing...)
	vh.Seqs(len(ab), 1, h.Pick(5, 6), func(ix []int) {
		if h.Stop() {
			return
		}
		check(func() string {
			var s []string
			for _, i := range ix {
				s = append(s, ab[i].String())
			}
			return strings.Join(s, " ")
		}, pick(ab, ix), nil)
	})
}

// readKey marks a read by the prompt in an event sequence.
const readKey = tcell.Key(-1)

func pick(ab []key, ix []int) []key {
	out := make([]key, len(ix))
	for i, j := range ix {
		out[i] = ab[j]
	}
	return out
}
