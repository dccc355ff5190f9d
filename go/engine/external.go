package engine

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// External runs an explorer in a process of its own and collects its results:
// lines "COUNT family|states[|transitions]", "FINDING family|what" and a final
// "DONE". A process ending otherwise is a finding.
func (x *Explorer) External(vm string, limit time.Duration, args ...string) {
	x.init()
	name := args[0][strings.LastIndex(args[0], "/")+1:]
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Env = append(os.Environ(), "ASAN_OPTIONS=detect_leaks=0:alloc_dealloc_mismatch=0")
	if name == "goconc" { // the race detector reports into a file the explorer reads
		dir, err := os.MkdirTemp(os.Getenv("VERIF_LIBS"), "race")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		cmd.Env = append(cmd.Env, "GORACE=log_path="+filepath.Join(dir, "log")+" exitcode=0")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var tail tailWriter
	cmd.Stderr = &tail
	p, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot load implementation:", err)
		os.Exit(2)
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	sc := bufio.NewScanner(p)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	done, found := false, 0
	report := func(family, what string) {
		found++
		b, _ := json.Marshal(map[string]any{"command": args, "what": what})
		x.Report(Finding{VM: vm, Family: family, What: what, Case: b})
	}
	for sc.Scan() {
		l := sc.Text()
		switch {
		case strings.HasPrefix(l, "COUNT "):
			f := strings.Split(l[6:], "|")
			n, _ := strconv.ParseInt(f[1], 10, 64)
			t := n
			if len(f) > 2 {
				t, _ = strconv.ParseInt(f[2], 10, 64)
			}
			x.RefCases.Add(n)
			x.RefSteps.Add(t)
			x.ImplRuns.Add(n)
			x.mu.Lock()
			x.Families[f[0]] += n
			x.mu.Unlock()
		case strings.HasPrefix(l, "FINDING "):
			f := strings.SplitN(l[8:], "|", 2)
			if len(f) < 2 {
				f = append(f, "")
			}
			report(f[0], f[1])
		case l == "DONE":
			done = true
		}
	}
	err = cmd.Wait()
	if !timer.Stop() && !done && found == 0 {
		// out of time: report what was covered, it is not a finding
		x.mu.Lock()
		x.truncated = append(x.truncated, name+": stopped after "+limit.String())
		x.mu.Unlock()
		return
	}
	if err != nil && found > 0 {
		fmt.Fprintf(os.Stderr, "%s: %v: %s\n", name, err, tail.String())
	}
	if (err != nil || !done) && found == 0 {
		report(name, fmt.Sprintf("the process ended unexpectedly (%v): %s", err, tail.String()))
	}
}

// ExternalShards runs n shares of an explorer concurrently.
func (x *Explorer) ExternalShards(vm string, limit time.Duration, n int, args ...string) {
	t0 := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := append(append([]string{}, args...), strconv.Itoa(i), strconv.Itoa(n))
			x.External(vm, limit, a...)
		}()
	}
	wg.Wait()
	fmt.Fprintf(os.Stderr, "[%s] %s %.1fs\n", x.Prop, strings.Join(args, " "), time.Since(t0).Seconds())
}

type tailWriter struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailWriter) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 8192 {
		t.b = t.b[len(t.b)-4096:]
	}
	return len(p), nil
}

func (t *tailWriter) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}
