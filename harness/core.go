// Command harness runs the simulated checks. One process is the parent that
// spawns workers; every worker runs simulations one after another, each
// decided by one seed.
package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/gen"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

// Violation is what a run found.
type Violation struct {
	Class  string `json:"class"`  // minimisation keeps the class
	Key    string `json:"key"`    // identifies the specific failing input, call or history
	Detail string `json:"detail"` // human readable
}

// X is one run (one seed, possibly several simulated processes one after the other).
type X struct {
	C       *simrt.Choices
	Tier    string
	Verbose bool

	viol               *Violation
	faults             map[string]int
	probes             map[string]int
	sims               int
	steps              int64
	simtime            int64
	switches, preempts int64
	tasks              int
	trace              uint64
	sched              uint64
	work               uint64
	nontriv            bool
	notes              []string
	tracet             []string
	sample             string
	allowed            map[string]bool
	// quiet disables the default liveness checks of Sim
}

func newX(c *simrt.Choices, tier string, verbose bool) *X {
	return &X{C: c, Tier: tier, Verbose: verbose, faults: map[string]int{}, probes: map[string]int{}}
}

// Fail records the first violation.
func (x *X) Fail(class, key, f string, a ...interface{}) {
	if x.viol == nil {
		x.viol = &Violation{Class: class, Key: key, Detail: fmt.Sprintf(f, a...)}
		if w := simrt.Cur(); w != nil {
			w.Event("violation %v", class)
		}
	}
}

// Failed tells whether a violation was recorded.
func (x *X) Failed() bool { return x.viol != nil }

// Note keeps a line of the run's narrative.
func (x *X) Note(f string, a ...interface{}) {
	if x.Verbose {
		x.notes = append(x.notes, fmt.Sprintf(f, a...))
	}
}

// Work mixes s into the identity of this run's workload.
func (x *X) Work(s string) { x.work = mix64(x.work ^ hash64(s)) }

// Obs mixes an observed result into the run's outcome hash (determinism check).
func (x *X) Obs(s string) { x.trace = mix64(x.trace ^ hash64(s)) }

// Nontrivial marks the run as having exercised what the rule asks for.
func (x *X) Nontrivial() { x.nontriv = true }

// Probe counts a situation reached.
func (x *X) Probe(k string) { x.probes[k]++ }

// Sample sets the written-out form of the case.
func (x *X) Sample(f string, a ...interface{}) {
	if x.sample == "" {
		x.sample = fmt.Sprintf(f, a...)
	}
}

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hash64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Opt configures one simulated process.
type Opt struct {
	Budget    int64
	NoPreempt bool
	Busy      bool
	Stdout    bool
	LeakOK    bool // tasks may stay blocked at the end (the caller abandoned them)
	RawResult bool // the caller judges the result itself
}

// Sim runs one simulated process from the state of a fresh process. Unless
// told otherwise it demands that the process survives, makes progress, lets
// the root finish and leaves no task behind.
func (x *X) Sim(o Opt, root func()) *simrt.Result {
	res := simrt.Run(x.C, simrt.Config{Budget: o.Budget, Verbose: x.Verbose, NoPreempt: o.NoPreempt, Busy: o.Busy, Stdout: o.Stdout}, func() {
		gen.Reset()
		root()
	})
	x.sims++
	x.steps += res.Steps
	x.simtime += res.SimTime
	x.switches += res.Switches
	x.preempts += res.Preempts
	x.tasks += res.Tasks
	x.trace = mix64(x.trace ^ res.TraceHash)
	x.sched = mix64(x.sched ^ res.SchedHash)
	for k, v := range res.Faults {
		x.faults[k] += v
	}
	for k, v := range res.Probes {
		x.probes[k] += v
	}
	if x.Verbose {
		x.tracet = append(x.tracet, fmt.Sprintf("--- simulated process %d", x.sims))
		x.tracet = append(x.tracet, res.Trace...)
	}
	if o.RawResult || x.viol != nil {
		return res
	}
	switch {
	case res.Crash != "":
		x.Fail("process-death", crashKey(res), "the process died: %s %s", res.Crash, res.MapRace)
	case res.NoProg != "":
		x.Fail("no-progress", "no-progress", "%s", res.NoProg)
	case !res.RootDone:
		x.Fail("deadlock", "deadlock", "nothing can run any more and the caller has not got its answer: %s", strings.Join(res.Blocked, "; "))
	case len(res.Blocked) > 0 && !o.LeakOK:
		x.Fail("leaked-task", "leaked-task", "the caller has its answer, but tasks stay blocked for ever: %s", strings.Join(res.Blocked, "; "))
	}
	return res
}

func crashKey(res *simrt.Result) string {
	if res.MapRace != "" {
		return "map-race"
	}
	l := res.Crash
	if i := strings.IndexByte(l, '\n'); i >= 0 {
		l = l[:i]
	}
	if i := strings.Index(l, "died of"); i >= 0 {
		l = l[i:]
	}
	return l
}

// Try runs f and returns what it panicked with.
func Try(f func()) (r interface{}, panicked bool) {
	done := false
	defer func() {
		if !done {
			r = recover()
			panicked = r != nil
		}
	}()
	f()
	done = true
	return
}

// TryS runs f and returns the panic text with the first library frame.
func TryS(f func()) (txt string, panicked bool) {
	done := false
	defer func() {
		if !done {
			if r := recover(); r != nil {
				txt, panicked = fmt.Sprint(r)+" "+libFrame(string(debug.Stack())), true
			}
		}
	}()
	f()
	done = true
	return
}

func libFrame(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, ".go:"); i >= 0 && !strings.Contains(l, "/zzverif/") && !strings.Contains(l, "/src/runtime/") && !strings.Contains(l, "/src/math/") {
			l = strings.TrimSpace(l)
			if j := strings.LastIndex(l, " +0x"); j > 0 {
				l = l[:j]
			}
			p := strings.Split(l, "/")
			if len(p) > 2 {
				l = strings.Join(p[len(p)-2:], "/")
			}
			return "[" + l + "]"
		}
	}
	return ""
}

// Prop is one decided property.
type Prop struct {
	ID       string
	Quick    int // runs
	Thorough int
	Run      func(x *X)
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
	// FaultKinds are the kinds this property's runs may inject; each must fire in a batch.
	FaultKinds []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func propIDs() []string {
	var l []string
	for k := range props {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// runOne executes run i of a property from its seed, or from recorded streams.
func runOne(p *Prop, c *simrt.Choices, tier string, verbose bool) *X {
	x := newX(c, tier, verbose)
	p.Run(x)
	return x
}

func runSeed(seed int64, prop string, i int) uint64 {
	return mix64(uint64(seed)*0x9e3779b97f4a7c15 ^ mix64(hash64(prop)^mix64(uint64(i))))
}
