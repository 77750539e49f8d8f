package main

import (
	"fmt"
	"os"
)

var dbgOn = os.Getenv("DBG") != ""

func dbg(f string, a ...any) {
	if dbgOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
