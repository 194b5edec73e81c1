package main

import (
	"context"
	"reflect"
	"unsafe"

	"github.com/c-bata/go-prompt"
	"github.com/mattn/go-runewidth"

	"sigs.k8s.io/instrumentation-tools/promq/term"
)

func width(r rune) int { return runewidth.RuneWidth(r) }

func setf(ptr interface{}, name string, x interface{}) {
	f := reflect.ValueOf(ptr).Elem().FieldByName(name)
	f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	f.Set(reflect.ValueOf(x))
}

func getf(ptr interface{}, name string) interface{} {
	f := reflect.ValueOf(ptr).Elem().FieldByName(name)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
}

// newPrompt is prompt.New without opening /dev/tty for the default input.
func newPrompt(comp prompt.Completer, opts ...prompt.Option) *prompt.Prompt {
	r := &prompt.Render{}
	setf(r, "prefix", "> ")
	setf(r, "livePrefixCallback", func() (string, bool) { return "", false })
	for name, col := range map[string]prompt.Color{
		"prefixTextColor": prompt.Blue, "suggestionTextColor": prompt.White, "suggestionBGColor": prompt.Cyan,
		"previewSuggestionTextColor": prompt.Green, "selectedSuggestionTextColor": prompt.Black,
		"selectedSuggestionBGColor": prompt.Turquoise, "descriptionTextColor": prompt.Black,
		"descriptionBGColor": prompt.Turquoise, "selectedDescriptionTextColor": prompt.White,
		"selectedDescriptionBGColor": prompt.Cyan, "scrollbarThumbColor": prompt.DarkGray, "scrollbarBGColor": prompt.Cyan,
	} {
		setf(r, name, col)
	}
	p := &prompt.Prompt{}
	setf(p, "renderer", r)
	setf(p, "buf", prompt.NewBuffer())
	setf(p, "history", prompt.NewHistory())
	setf(p, "completion", prompt.NewCompletionManager(comp, 6))
	setf(p, "keyBindMode", prompt.EmacsKeyBind)
	for _, o := range opts {
		if err := o(p); err != nil {
			panic(err)
		}
	}
	return p
}

func noSuggestions(prompt.Document) []prompt.Suggest { return nil }

// console is the prompt's view of a PromptView: where it reads from and writes to.
type console struct {
	v   *term.PromptView
	in  prompt.ConsoleParser
	out prompt.ConsoleWriter
}

// newConsole sets up a PromptView whose input loop ends at once, so that the
// caller can drive its reader and writer directly.
func newConsole(screen *fakeScreen, initial *string) *console {
	c := &console{}
	c.v = &term.PromptView{
		Screen: screen,
		SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt {
			p := newPrompt(noSuggestions, opts...)
			c.in = getf(p, "in").(prompt.ConsoleParser)
			c.out = getf(getf(p, "renderer"), "out").(prompt.ConsoleWriter)
			return p
		},
		HandleInput: func(string) (*string, bool) { return nil, false },
	}
	ctx, cancel := context.WithCancel(context.Background())
	c.v.OnSetup = cancel
	if err := c.v.Run(ctx, initial, func() {}); err != nil {
		panic(err)
	}
	return c
}
