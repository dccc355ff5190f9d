//go:build race

package vsync

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"unsafe"
)

func raceErrors() int              { return runtime.RaceErrors() }
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// raceText returns the first report of the race detector.
func raceText() string {
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if f, ok := strings.CutPrefix(o, "log_path="); ok {
			b, err := os.ReadFile(fmt.Sprintf("%s.%d", f, os.Getpid()))
			if err != nil {
				return err.Error()
			}
			if len(b) > 1800 {
				b = b[:1800]
			}
			return strings.Join(strings.Fields(string(b)), " ")
		}
	}
	return ""
}
