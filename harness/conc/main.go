// Checks under concurrency (C08): every interleaving of the synchronisation
// operations within a preemption bound, with the race detector watching.
package main

import (
	"os"
	"testing"

	"verif/vh"
)

func main() {
	// a data race is reported by the case during which it happens
	os.Setenv("GORACE", "exitcode=0 history_size=3")
	vh.Main(
		vh.Check{ID: "C08", Bounds: boundsC08, Run: runC08, Wrap: inTest},
		vh.Check{ID: "C21", Bounds: boundsC21, Run: runC21, Wrap: inTest},
		vh.Check{ID: "C28", Bounds: boundsC28, Run: runC28, Wrap: inTest},
		vh.Check{ID: "C27", Bounds: boundsC27, Run: runC27, Wrap: inTest},
		vh.Check{ID: "C23", Bounds: boundsC23, Run: runC23, Wrap: inTest},
		vh.Check{ID: "C22", Bounds: boundsC22, Run: runC22, Wrap: inTest},
	)
}

var theT *testing.T

// inTest runs f inside a testing.T, which testing/synctest bubbles need.
func inTest(f func()) {
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "V", F: func(t *testing.T) { theT = t; f() }}}, nil, nil)
}
