// Checks of the storage, parsing, index, query and output layer (C01-C07, C09)
// and of the command (C10, C25).
package main

import (
	"os"
	"testing"

	"verif/vh"
)

func main() {
	vh.Main(
		vh.Check{ID: "C01", Bounds: boundsC01, Run: runC01},
		vh.Check{ID: "C02", Bounds: boundsC02, Run: runC02},
		vh.Check{ID: "C03", Bounds: boundsC03, Run: runC03},
		vh.Check{ID: "C04", Bounds: boundsC04, Run: runC04},
		vh.Check{ID: "C05", Bounds: boundsC05, Run: runC05},
		vh.Check{ID: "C06", Bounds: boundsC06, Run: runC06},
		vh.Check{ID: "C07", Bounds: boundsC07, Run: runC07, Wrap: inTest},
		vh.Check{ID: "C09", Bounds: boundsC09, Run: runC09},
		vh.Check{ID: "C10", Bounds: boundsC10, Run: runC10, Wrap: inTest},
		vh.Check{ID: "C25", Bounds: boundsC25, Run: runC25},
	)
}

var theT *testing.T

// inTest runs f inside a testing.T, which testing/synctest bubbles need.
func inTest(f func()) {
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "V", F: func(t *testing.T) { theT = t; f() }}}, nil, nil)
}
