// Command goconc explores the interleavings of concurrent uses of Go
// components. It is built with the race detector and with an overlay directing
// the synchronization of the code under test to package vsync.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verif/vsync"
)

// explorer distributes the scenarios over the shares and counts.
type explorer struct {
	thorough      bool
	share, shares int
	n             int
	schedules     map[string]int64
	order         []string
	failed        map[string]int
}

// explore runs a scenario if it belongs to this share.
func (e *explorer) explore(family, name string, bound int, setup func() []func(), check func() string) {
	e.n++
	if (e.n-1)%e.shares != e.share || e.failed[family] >= 2 {
		return
	}
	n, ok := vsync.Explore(family+": "+name, bound, setup, check)
	if _, found := e.schedules[family]; !found {
		e.order = append(e.order, family)
	}
	e.schedules[family] += n
	if !ok {
		e.failed[family]++
	}
}

func main() {
	if len(os.Args) < 5 {
		fmt.Println("usage: goconc <property> <tier> <share> <shares>")
		os.Exit(2)
	}
	e := &explorer{thorough: os.Args[2] == "thorough", schedules: map[string]int64{}, failed: map[string]int{}}
	e.share, _ = strconv.Atoi(os.Args[3])
	e.shares, _ = strconv.Atoi(os.Args[4])
	// implementations may print; results go to the original stdout
	vsync.Out = os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	switch os.Args[1] {
	case "P13":
		hashHistories(e)
	case "P15":
		hashInterleavings(e)
		lfvmScenarios(e)
	case "P25":
		registryScenarios(e)
	}
	for _, f := range e.order {
		fmt.Fprintf(vsync.Out, "COUNT %s|%d\n", f, e.schedules[f])
	}
	fmt.Fprintln(vsync.Out, "DONE")
}
