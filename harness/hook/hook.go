// Package hook stands in for functions that would open the terminal.
package hook

import (
	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
)

var (
	MakeScreen func() (tcell.Screen, error)
	MakePrompt func(comp prompt.Completer, opts ...prompt.Option) *prompt.Prompt
)

// NewScreen stands in for tcell.NewScreen.
func NewScreen() (tcell.Screen, error) { return MakeScreen() }

// NewPrompt stands in for prompt.New.
func NewPrompt(_ prompt.Executor, comp prompt.Completer, opts ...prompt.Option) *prompt.Prompt {
	return MakePrompt(comp, opts...)
}
