// Command zzverif is the conformance driver.  It is compiled into the gini
// module through a build overlay (see /verif/lib/vlib.py), executes scripts of
// public API calls against the code in /repo and records what it observed as
// traces.  It never decides a property: traces are judged by TLC.
package main

import (
	"fmt"
	"os"
	"path/filepath"
)

var cmds = map[string]func(args []string){}

func main() {
	if filepath.Base(os.Args[0]) == "zzsolver" && len(os.Args) > 1 {
		zzsolver(os.Args[1:])
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: zzverif CMD ...")
		os.Exit(2)
	}
	f, ok := cmds[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
	f(os.Args[2:])
}
