// Checks of the continuous mode of the command (C26), over the whole program but
// for the terminal and the network.
package main

import (
	"os"
	"testing"

	"verif/vh"
)

func main() {
	vh.Main(
		vh.Check{ID: "C26", Bounds: boundsC26, Run: runC26, Wrap: inTest},
		vh.Check{ID: "C29", Bounds: boundsC29, Run: runC29, Wrap: inTest},
	)
}

var theT *testing.T

// inTest runs f inside a testing.T, which testing/synctest bubbles need.
func inTest(f func()) {
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "V", F: func(t *testing.T) { theT = t; f() }}}, nil, nil)
}
