// Checks of the completion layer (C11-C15).
package main

import (
	"os"
	"time"

	"verif/vh"
)

func main() {
	if os.Getenv("VERIF_FRESH") != "" {
		freshMain()
		return
	}
	vh.Main(
		vh.Check{ID: "C11", Bounds: boundsC11, Run: runC11},
		vh.Check{ID: "C12", Bounds: boundsC12, Run: runC12},
		vh.Check{ID: "C13", Bounds: boundsC13, Run: runC13, CaseLimit: time.Minute},
		vh.Check{ID: "C14", Bounds: boundsC14, Run: runC14},
		vh.Check{ID: "C15", Bounds: boundsC15, Run: runC15},
		vh.Check{ID: "C29", Bounds: boundsC29, Run: runC29},
	)
}
