// Checks of the terminal widgets (C16-C18, C21-C23).
package main

import (
	"os"
	"testing"

	"verif/vh"
)

func main() {
	vh.Main(
		vh.Check{ID: "C16", Bounds: boundsC16, Run: runC16},
		vh.Check{ID: "C17", Bounds: boundsC17, Run: runC17, Wrap: inTest},
		vh.Check{ID: "C18", Bounds: boundsC18, Run: runC18},
		vh.Check{ID: "C21", Bounds: boundsC21, Run: runC21},
		vh.Check{ID: "C22", Bounds: boundsC22, Run: runC22},
		vh.Check{ID: "C30", Bounds: boundsC30, Run: runC30, Wrap: inTest},
		vh.Check{ID: "C23", Bounds: boundsC23, Run: runC23, Wrap: inTest},
	)
}

var theT *testing.T

// inTest runs f inside a testing.T, which testing/synctest bubbles need.
func inTest(f func()) {
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "V", F: func(t *testing.T) { theT = t; f() }}}, nil, nil)
}
