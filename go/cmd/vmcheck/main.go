// Command vmcheck explores bounded spaces of EVM executions exhaustively and
// compares the real interpreters against the reference model.
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/engine"
)

type check struct {
	vms string // comma separated VM groups
	run func(x *engine.Explorer)
}

var checks = map[string]check{}

func main() {
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	dir := flag.String("dir", "/verif", "verification directory")
	child := flag.Bool("child", false, "internal")
	replay := flag.String("replay", "", "replay file")
	vms := flag.String("vms", "", "override the VM groups")
	slots := flag.String("slots", "", "internal")
	diagShare := flag.Bool("diag", false, "internal")
	flag.Parse()
	if *diagShare {
		diagMain(flag.Args())
		return
	}
	c, ok := checks[*prop]
	if !ok && *replay == "" {
		var names []string
		for n := range checks {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println("unknown property; have", names)
		os.Exit(2)
	}
	if *vms != "" {
		c.vms = *vms
	}
	if !*child {
		runtime.LockOSThread() // the thread the child lives with
		os.Exit(parent(*prop, *tier, *dir, *replay))
	}

	// Implementations with logging or profiling write to stdout; keep the real
	// one aside.
	fd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	out := os.NewFile(uintptr(fd), "out")
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Dup2(int(null.Fd()), 1); err != nil {
		panic(err)
	}

	x := &engine.Explorer{Prop: *prop, Tier: *tier, Dir: *dir}
	x.Known = engine.LoadKnown(filepath.Join(*dir, "known_findings.jsonl"), *prop)
	if *replay != "" {
		doReplay(*replay, out)
		return
	}
	if *tier == "quick" {
		x.Stop = time.Now().Add(400 * time.Second) // safety net only
	} else {
		x.Stop = time.Now().Add(800 * time.Second)
	}
	x.VMs = loadVMs(c.vms)
	if *slots != "" {
		if s, err := engine.OpenSlots(*slots, 64); err == nil {
			x.Slots = s
		}
	}
	c.run(x)
	os.Exit(x.Finish(out, "bounded-exhaustive"))
}

// parent runs the exploration in a child process, such that a crash or hang of
// an implementation is turned into a violation.
func parent(prop, tier, dir, replay string) int {
	ev := filepath.Join(dir, "evidence")
	os.MkdirAll(ev, 0o755)
	slots := filepath.Join(ev, "."+prop+".slots")
	defer os.Remove(slots)
	for attempt := 0; ; attempt++ {
		os.Remove(slots)
		args := append([]string{}, os.Args[1:]...)
		args = append(args, "-child", "-slots", slots)
		cmd := exec.Command(os.Args[0], args...)
		cmd.Stdout = os.Stdout
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var tail tailBuffer
		cmd.Stderr = &tail
		err := cmd.Run()
		if err == nil {
			return 0
		}
		var ee *exec.ExitError
		if errors.As(err, &ee) && ee.ExitCode() == 1 {
			return 1
		}
		if replay != "" {
			fmt.Println("replay crashed:", err)
			return 1
		}
		what := fmt.Sprintf("exploration process died: %v", err)
		if strings.Contains(tail.String(), "cannot load implementation") {
			fmt.Println(what)
			return 2
		}
		if attempt == 0 && !(errors.As(err, &ee) && ee.ExitCode() == 77) {
			fmt.Println(what, "- repeating to confirm")
			continue
		}
		path := filepath.Join(ev, fmt.Sprintf("replay-%s-crash.json", prop))
		var cases []json.RawMessage
		if s, err := engine.OpenSlots(slots, 64); err == nil {
			for _, c := range s.Get() {
				cases = append(cases, engine.MarshalCase(c))
			}
		}
		b, _ := json.MarshalIndent(map[string]any{"what": what, "in_flight": cases, "stderr": tail.String()}, "", " ")
		os.WriteFile(path, b, 0o644)
		e := map[string]any{"property": prop, "tier": tier, "seed": 1, "level": "model_checking", "wall_s": 0, "violations": 1,
			"coverage": map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}}}
		b, _ = json.Marshal(e)
		os.WriteFile(filepath.Join(ev, prop+".json"), b, 0o644)
		fmt.Println(what)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
}

type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	os.Stderr.Write(p)
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = t.b[len(t.b)-1<<15:]
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { return string(t.b) }

func doReplay(file string, out *os.File) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var f engine.Finding
	if err := json.Unmarshal(b, &f); err != nil {
		panic(err)
	}
	c, err := engine.UnmarshalCase(f.Case)
	if err != nil {
		panic(err)
	}
	var w engine.World
	o, _ := engine.RunRef(c, &w, nil, nil)
	fmt.Fprintf(out, "%-28s %s\n", "reference", o.String())
	for _, vm := range loadVMs("all") {
		g := engine.RunImpl(vm.I, c, &w)
		fmt.Fprintf(out, "%-28s %s\n", vm.Name, g.String())
	}
}
