package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/ref"
)

// VM is an implementation under test.
type VM struct {
	Name string
	I    tosca.Interpreter
}

// Finding is a violation of a property.
type Finding struct {
	VM     string          `json:"vm"`
	Family string          `json:"family"`
	What   string          `json:"what"`
	Want   string          `json:"want"`
	Got    string          `json:"got"`
	Case   json.RawMessage `json:"case"`
}

// Explorer drives the enumeration and collects the evidence.
type Explorer struct {
	Prop, Tier string
	Dir        string // verification directory
	VMs        []VM
	Workers    int
	Stop       time.Time
	Slots      *SlotFile // in-flight cases, survives crashes
	Known      []KnownFinding

	RefCases, RefSteps, ImplRuns, Skipped atomic.Int64
	NonTrivial                            atomic.Int64 // runs that did not fail immediately

	mu        sync.Mutex
	findings  []Finding
	found     atomic.Int32
	known     map[string]int
	Families  map[string]int64
	extra     map[string]any
	samples   []string
	start     time.Time
	famStart  time.Time
	truncated []string
}

// Thorough reports whether the deep bounds are to be used.
func (x *Explorer) Thorough() bool { return x.Tier == "thorough" }

// Pick chooses between the quick and the thorough bound.
func Pick[T any](x *Explorer, quick, thorough T) T {
	if x.Thorough() {
		return thorough
	}
	return quick
}

func (x *Explorer) init() {
	if x.Families == nil {
		x.Families = map[string]int64{}
		x.known = map[string]int{}
		x.extra = map[string]any{}
		x.samples = []string{}
		x.truncated = []string{}
		x.start = time.Now()
		if x.Workers == 0 {
			x.Workers = runtime.NumCPU()
		}
	}
}

// Extra records an additional evidence value.
func (x *Explorer) Extra(key string, v any) {
	x.init()
	x.mu.Lock()
	x.extra[key] = v
	x.mu.Unlock()
}

// Sample records an example of an explored case for the evidence.
func (x *Explorer) Sample(s string) {
	x.init()
	x.mu.Lock()
	if len(x.samples) < 24 {
		x.samples = append(x.samples, s)
	}
	x.mu.Unlock()
}

// Report records a finding.
func (x *Explorer) Report(f Finding) {
	x.init()
	x.mu.Lock()
	defer x.mu.Unlock()
	for i := range x.Known {
		if x.Known[i].matches(&f) {
			x.known[x.Known[i].Text]++
			return
		}
	}
	x.findings = append(x.findings, f)
	x.found.Add(1)
}

// maxFindings ends the exploration.
var maxFindings = func() int32 {
	if n, err := strconv.Atoi(os.Getenv("VERIF_MAX")); err == nil {
		return int32(n)
	}
	return 5
}()

func (x *Explorer) tooMany() bool {
	return x.found.Load() >= maxFindings
}

// Findings returns what has been found.
func (x *Explorer) Findings() []Finding { return x.findings }

// Worker owns the scratch structures of one exploring goroutine.
type Worker struct {
	X      *Explorer
	ID     int
	Family string
	rw, iw World
	trace  []int64
	key    []byte
	Steps  int64
	n      int64
	inRun  atomic.Int64 // start of the current case, for the watchdog
	cur    atomic.Pointer[Case]
	note   atomic.Pointer[func() string]
	gaveUp bool
}

// Parallel explores the index range [0,n) of a family completely.
func (x *Explorer) Parallel(family string, n int, f func(w *Worker, i int)) {
	x.init()
	t0 := time.Now()
	var next atomic.Int64
	var wg sync.WaitGroup
	var cases atomic.Int64
	chunk := int64(1)
	if n > 100000 {
		chunk = 16
	}
	workers := make([]*Worker, x.Workers)
	done := make(chan struct{})
	for k := range workers {
		w := &Worker{X: x, ID: k, Family: family}
		workers[k] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !x.tooMany() {
				i := next.Add(chunk) - chunk
				if i >= int64(n) {
					break
				}
				for j := i; j < i+chunk && j < int64(n); j++ {
					w.work(f, int(j))
				}
				if !x.Stop.IsZero() && time.Now().After(x.Stop) {
					break
				}
			}
			cases.Add(w.n)
		}()
	}
	go func() { // watchdog
		for {
			select {
			case <-done:
				return
			case <-time.After(2 * time.Second):
			}
			for _, w := range workers {
				if t := w.inRun.Load(); t != 0 && time.Now().UnixNano()-t > int64(60*time.Second) {
					if f := w.note.Load(); f != nil {
						fmt.Fprintf(os.Stderr, "watchdog: running for more than 60s: %s\n", (*f)())
					}
					if c := w.cur.Load(); c != nil {
						fmt.Fprintf(os.Stderr, "watchdog: case running for more than 60s: %s\n", MarshalCase(c))
					}
					os.Exit(77) // the parent reports a hang
				}
			}
		}
	}()
	wg.Wait()
	close(done)
	x.mu.Lock()
	x.Families[family] += cases.Load()
	gaveUp := false
	for _, w := range workers {
		gaveUp = gaveUp || w.gaveUp
	}
	if next.Load() < int64(n) || gaveUp {
		x.truncated = append(x.truncated, fmt.Sprintf("%s: %d of %d indices", family, next.Load(), n))
	}
	x.mu.Unlock()
	fmt.Fprintf(os.Stderr, "[%s] %-28s %10d cases %8.1fs\n", x.Prop, family, cases.Load(), time.Since(t0).Seconds())
}

type outOfTime struct{}

// work runs one index; it is given up when there is no time left.
func (w *Worker) work(f func(w *Worker, i int), i int) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(outOfTime); !ok {
				panic(r)
			}
			w.gaveUp = true
			w.inRun.Store(0)
		}
	}()
	f(w, i)
}

func (w *Worker) begin() {
	t := time.Now()
	if !w.X.Stop.IsZero() && t.After(w.X.Stop) || w.X.tooMany() {
		panic(outOfTime{})
	}
	w.inRun.Store(t.UnixNano())
}

// Check runs the case everywhere and compares outcomes; with c.Sweep also for
// every gas amount at which the reference charges.
func (w *Worker) Check(c *Case) {
	if c.World == nil {
		c.World = &StdWorld
	}
	w.begin()
	defer w.inRun.Store(0)
	w.trace = w.trace[:0]
	var tr *[]int64
	if c.Sweep {
		tr = &w.trace
	}
	w.one(c, tr)
	if !c.Sweep {
		return
	}
	ts := append([]int64{}, w.trace...)
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	last := int64(-1)
	for _, t := range ts {
		for _, g := range []int64{t - 1, t} {
			if g <= last || g < 0 || g >= c.Gas {
				continue
			}
			last = g
			c2 := *c
			c2.Gas = g
			w.one(&c2, nil)
		}
	}
}

func (w *Worker) one(c *Case, tr *[]int64) {
	x := w.X
	w.n++
	want, st := RunRef(c, &w.rw, tr, nil)
	x.RefCases.Add(1)
	x.RefSteps.Add(int64(st.Steps))
	failed := st.Status == ref.Failed
	if w.ID == 0 && (w.n == 1 || w.n == 1000) {
		x.Sample(fmt.Sprintf("%s: %s -> %s", w.Family, clip(string(MarshalCase(c))), clip(want.String())))
	}
	if !failed {
		x.NonTrivial.Add(1)
	}
	if x.Slots != nil {
		x.Slots.Put(w.ID, c)
		w.cur.Store(c)
	}
	for k := range x.VMs {
		vm := &x.VMs[k]
		got := RunImpl(vm.I, c, &w.iw)
		x.ImplRuns.Add(1)
		d := diff(&want, &got, failed)
		if d == "" && c.Static && got.Mut > 0 {
			d = fmt.Sprintf("%d state changes in static mode: %x", got.Mut, got.Journal)
		}
		if d != "" {
			// Replay once more before reporting: the outcome must be reproducible.
			x.Report(Finding{VM: vm.Name, Family: w.Family, What: d, Want: want.String(), Got: got.String(), Case: MarshalCase(c)})
		}
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// Begin marks the start of harness-specific work on a program, for the watchdog
// and the crash report.
func (w *Worker) Begin(code []byte) {
	c := &Case{Code: code, World: &StdWorld}
	if w.X.Slots != nil {
		w.X.Slots.Put(w.ID, c)
	}
	w.cur.Store(c)
	w.begin()
}

// End marks the end of the work.
func (w *Worker) End() { w.inRun.Store(0) }

// Count adds harness-specific work to the counters.
func (w *Worker) Count(states, steps, impl int64) {
	w.n++
	w.X.RefCases.Add(states)
	w.X.RefSteps.Add(steps)
	w.X.ImplRuns.Add(impl)
}

// KnownFinding is an entry of the committed list of known findings.
type KnownFinding struct {
	Property string `json:"property"`
	VM       string `json:"vm"`     // exact VM name or prefix ending in *
	Family   string `json:"family"` // optional
	Code     string `json:"code"`   // exact program, or substring if CodeContains
	Contains string `json:"code_contains"`
	What     string `json:"what_contains"`
	Text     string `json:"text"`
	Rev      string `json:"revision"`
	MinCode  int    `json:"min_code_bytes"` // only programs of at least this length
}

func (k *KnownFinding) matches(f *Finding) bool {
	if strings.HasSuffix(k.VM, "*") {
		if !strings.HasPrefix(f.VM, strings.TrimSuffix(k.VM, "*")) {
			return false
		}
	} else if k.VM != "" && k.VM != f.VM {
		return false
	}
	if k.Family != "" && k.Family != f.Family {
		return false
	}
	if k.Code == "" && k.Contains == "" && k.What == "" && k.MinCode == 0 {
		return false
	}
	var m struct{ Code, Revision string }
	_ = json.Unmarshal(f.Case, &m)
	if k.Code != "" && m.Code != k.Code {
		return false
	}
	if k.Contains != "" && !strings.Contains(m.Code, k.Contains) {
		return false
	}
	if len(m.Code)/2 < k.MinCode {
		return false
	}
	if k.Rev != "" && k.Rev != m.Revision {
		return false
	}
	return k.What == "" || strings.Contains(f.What, k.What)
}

// LoadKnown reads the known findings of a property.
func LoadKnown(file, prop string) (res []KnownFinding) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, line := range bytes.Split(b, []byte("\n")) {
		line = bytes.TrimSpace(line)
		if len(line) == 0 || line[0] != '{' {
			continue
		}
		var k KnownFinding
		if json.Unmarshal(line, &k) == nil && k.Property == prop && k.Text != "" {
			res = append(res, k)
		}
	}
	return
}

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

// Finish writes evidence and replay files and returns the exit code.
func (x *Explorer) Finish(out *os.File, technique string) int {
	x.init()
	ev := filepath.Join(x.Dir, "evidence")
	os.MkdirAll(ev, 0o755)
	var texts []string
	for t := range x.known {
		texts = append(texts, t)
	}
	sort.Strings(texts)
	for _, t := range texts {
		fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s\n", x.Prop, t)
	}
	seen := map[string]bool{}
	for i, f := range x.findings {
		if i >= 5 {
			break
		}
		_ = seen
		path := filepath.Join(ev, fmt.Sprintf("replay-%s-%d.json", x.Prop, i))
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Fprintf(out, "%s [%s]: %s\n", f.VM, f.Family, f.What)
		fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", x.Prop, path)
	}
	names := make([]string, 0, len(x.VMs))
	for _, v := range x.VMs {
		names = append(names, v.Name)
	}
	mc := map[string]any{
		"exhaustive":                    len(x.truncated) == 0 && len(x.findings) == 0,
		"states":                        x.RefCases.Load(),
		"transitions":                   x.RefSteps.Load(),
		"traces_validated_against_impl": x.ImplRuns.Load(),
		"samples":                       x.samples,
		"families":                      x.Families,
		"not_failing_states":            x.NonTrivial.Load(),
		"implementations":               names,
		"truncated":                     x.truncated,
	}
	for k, v := range x.extra {
		mc[k] = v
	}
	e := map[string]any{
		"property": x.Prop, "tier": x.Tier, "seed": seed(), "level": "model_checking",
		"coverage":   mc,
		"wall_s":     time.Since(x.start).Seconds(),
		"violations": len(x.findings),
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(filepath.Join(ev, x.Prop+".json"), b, 0o644)
	fmt.Fprintf(os.Stderr, "[%s] %d model states, %d model transitions, %d implementation runs, %.1fs\n", x.Prop,
		x.RefCases.Load(), x.RefSteps.Load(), x.ImplRuns.Load(), time.Since(x.start).Seconds())
	if len(x.findings) > 0 {
		return 1
	}
	fmt.Fprintf(out, "OK property=%s\n", x.Prop)
	return 0
}

// BeginNote is like Begin for work which is not the execution of a program.
func (w *Worker) BeginNote(f func() string) {
	w.note.Store(&f)
	w.begin()
}
