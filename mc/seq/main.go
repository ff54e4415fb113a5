// Command seq runs the checks of single-threaded behaviour against the unmodified packages.
package main

import (
	"os"

	"verif/core"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "sub31" {
		sub31(os.Args[2:])
		return
	}
	core.Main()
}
