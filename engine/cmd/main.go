// Command mc runs the model checker.
package main

import (
	"os"

	"github.com/ti-mo/comfo/zzverif/harness"
)

func main() { os.Exit(harness.Main(os.Args[1:])) }
