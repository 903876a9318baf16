package simrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

const siteMask = 1<<14 - 1

var (
	countdown int64 = 1 << 60
	hot       [siteMask + 1]bool
	w         *World
)

// SiteName is filled in by the generated site table.
var SiteName = func(site uint32) string { return fmt.Sprintf("site#%d", site) }

// NumSites is filled in by the generated site table.
var NumSites uint32

// Y is the statement-level scheduling point the instrumenter inserts.
func Y(site uint32) {
	countdown--
	if countdown < 0 || hot[site&siteMask] {
		ySlow(site)
	}
}

type taskState uint8

const (
	runnable taskState = iota
	blocked
	done
)

// Task is one simulated goroutine.
type Task struct {
	ID      int
	Name    string
	wake    chan struct{}
	state   taskState
	kill    bool
	waitOn  string
	lastYS  uint32
	exited  chan struct{}
	spawnAt uint32
	Owner   int // inherited by the tasks it starts
}

// Config bounds and shapes one run.
type Config struct {
	Budget    int64 // statement budget; exceeding it is "no progress"
	Verbose   bool
	NoPreempt bool
	Busy      bool // the tasks compute long and should interleave
	Stdout    bool // fault injection on stdout
}

// Result is what a run looked like from outside.
type Result struct {
	RootDone  bool
	Blocked   []string // tasks still blocked at quiescence
	Crash     string   // a task died of an unrecovered panic: process death
	NoProg    string   // budget exceeded: where
	Steps     int64
	Switches  int64
	Preempts  int64
	Tasks     int
	SimTime   int64
	TraceHash uint64
	SchedHash uint64
	Faults    map[string]int
	Probes    map[string]int
	Trace     []string
	MapRace   string
}

type timer struct {
	at  int64
	seq int64
	fn  func()
	off bool
}

// World is one simulated process environment.
type World struct {
	C      *Choices
	cfg    Config
	tasks  []*Task // live tasks
	runq   []*Task
	cur    *Task
	nextID int
	now    int64
	seq    int64
	timers []*timer
	dead   bool
	over   bool
	doneCh chan struct{}
	res    *Result
	steps  int64
	chunk  int64
	// preemption strategy
	mean      int64
	syncNum   int
	hotLeft   int
	lapseLeft int
	hotHits   map[uint32]int
	windows   map[unsafe.Pointer]*mapWin
	winLeft   int
	Disk      *Disk
	Entropy   *Entropy
	skew      int64
	root      *Task
	buf       []byte
	Local     map[string]interface{}
}

// Cur returns the running world.
func Cur() *World { return w }

// Now is the simulated time in nanoseconds.
func (w *World) Now() int64 { return w.now }

// Event appends to the trace and its hash.
func (w *World) Event(format string, a ...interface{}) {
	if w == nil {
		return
	}
	w.res.TraceHash = mix(w.res.TraceHash ^ hashStr(format))
	for _, x := range a {
		switch v := x.(type) {
		case int:
			w.res.TraceHash = mix(w.res.TraceHash ^ uint64(v))
		case int64:
			w.res.TraceHash = mix(w.res.TraceHash ^ uint64(v))
		case string:
			w.res.TraceHash = mix(w.res.TraceHash ^ hashStr(v))
		}
	}
	if w.cfg.Verbose && len(w.res.Trace) < 4000 {
		w.res.Trace = append(w.res.Trace, fmt.Sprintf("t=%d ", w.now)+fmt.Sprintf(format, a...))
	}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Fault counts an injected fault that actually fired.
func (w *World) Fault(kind string) {
	w.res.Faults[kind]++
	w.Event("fault %s", kind)
}

// Probe counts a reached situation.
func (w *World) Probe(kind string) { w.res.Probes[kind]++ }

// Run executes root under the simulator until nothing can run any more.
func Run(c *Choices, cfg Config, root func()) *Result {
	if cfg.Budget == 0 {
		cfg.Budget = 400000000 // an endless recursion is refused after up to 10^8 points
	}
	nw := &World{C: c, cfg: cfg, doneCh: make(chan struct{}, 1), hotHits: map[uint32]int{}, windows: map[unsafe.Pointer]*mapWin{}, Local: map[string]interface{}{}}
	nw.res = &Result{Faults: map[string]int{}, Probes: map[string]int{}}
	nw.Disk = newDisk(nw)
	nw.Entropy = newEntropy(nw)
	nw.pickStrategy()
	w = nw
	nw.root = nw.spawn("root", 0, root)
	nw.schedule(nil)
	<-nw.doneCh
	countdown = 1 << 60
	nw.dead = true
	// collect what is still alive
	res := nw.res
	res.RootDone = nw.root.state == done
	live := append([]*Task(nil), nw.tasks...)
	sort.Slice(live, func(i, j int) bool { return live[i].ID < live[j].ID })
	for _, t := range live {
		if t.state == blocked {
			res.Blocked = append(res.Blocked, fmt.Sprintf("%s blocked in %s", t.Name, t.waitOn))
		}
	}
	for _, t := range live {
		if t.state != done {
			t.kill = true
			t.wake <- struct{}{}
			<-t.exited
		}
	}
	for i := range hot {
		hot[i] = false
	}
	res.SimTime = nw.now
	w = nil
	return res
}

// pickStrategy draws this run's preemption policy (swarm style).
func (nw *World) pickStrategy() {
	s := nw.C.S
	nw.chunk = 0
	if nw.cfg.NoPreempt {
		nw.setCountdown()
		return
	}
	how := 0
	if nw.cfg.Busy {
		how = 1 + s.Pick(1, 2, 5)
	} else {
		how = s.Pick(2, 2, 3, 4)
	}
	switch how {
	case 0: // run to block
	case 1: // sparse time slices
		nw.mean = int64([]int{2000, 20000, 200000}[s.N(3)])
	case 2: // dense time slices
		nw.mean = int64([]int{3, 12, 60, 300}[s.N(4)])
		if nw.cfg.Busy {
			nw.mean *= 20
		}
	case 3: // target a random subset of the program's statements
		nw.mean = int64([]int{0, 0, 5000}[s.N(3)])
		salt := uint64(s.Salt())
		if salt != 0 {
			m := []uint64{4, 16, 48, 160}[s.N(4)]
			for i := uint32(0); i < NumSites; i++ {
				if mix(salt^uint64(i)<<20)%m == 0 {
					hot[i&siteMask] = true
				}
			}
			nw.hotLeft = 400
			if nw.cfg.Busy {
				nw.hotLeft = 6000
			}
		}
	}
	nw.syncNum = []int{0, 1, 3}[s.N(3)]
	nw.winLeft = []int{0, 40, 200}[s.N(3)]
	nw.lapseLeft = []int{0, 5, 40}[s.N(3)]
	if nw.cfg.Busy {
		nw.lapseLeft *= 4
	}
	nw.setCountdown()
}

func (nw *World) setCountdown() {
	c := int64(1 << 22)
	if nw.mean > 0 {
		// a random slice length around mean; 0 means a full chunk
		v := nw.C.S.next(1<<40, func() int64 { return 1 + int64(nw.C.S.raw()%uint64(2*nw.mean)) })
		if v != 0 {
			c = v
		} else {
			nw.mean = 0
		}
	}
	if left := nw.cfg.Budget - nw.steps; c > left {
		c = left + 1
	}
	nw.chunk = c
	countdown = c
}

func (nw *World) account() {
	used := nw.chunk - countdown
	if used < 0 {
		used = 0
	}
	nw.steps += used
	nw.chunk = countdown
	nw.res.Steps = nw.steps
}

func ySlow(site uint32) {
	if w == nil || w.cur == nil {
		countdown = 1 << 60
		return
	}
	nw := w
	if nw.dead {
		countdown = 1 << 60
		return
	}
	t := nw.cur
	t.lastYS = site
	if countdown < 0 {
		nw.account()
		if nw.steps >= nw.cfg.Budget {
			nw.res.NoProg = fmt.Sprintf("task %s exceeded the step budget of %d near %s", t.Name, nw.cfg.Budget, SiteName(site))
			nw.finish(t)
			return
		}
		nw.setCountdown()
		nw.lapse()
		if len(nw.runq) > 0 {
			nw.preempt(t, site)
		}
		return
	}
	// hot site
	if nw.hotLeft <= 0 {
		return
	}
	nw.lapse()
	if len(nw.runq) == 0 {
		return
	}
	h := nw.hotHits[site]
	nw.hotHits[site] = h + 1
	if h >= 15 {
		// leave the rest to the statements that are reached less often
		hot[site&siteMask] = false
		return
	}
	den := 2
	if h > 3 {
		den = 2 + h/2
	}
	nw.hotLeft--
	if nw.C.S.Chance(1, den) {
		nw.preempt(t, site)
	}
}

// lapse lets the computation of the running task take until the next timer is due, now and then.
func (nw *World) lapse() {
	if nw.lapseLeft > 0 && len(nw.timers) > 0 && nw.C.S.Chance(1, 2) {
		nw.lapseLeft--
		nw.fireTimer()
	}
}

func (nw *World) preempt(t *Task, site uint32) {
	nw.res.Preempts++
	nw.Event("preempt %v at %v", t.Name, int(site))
	if nw.cfg.Verbose && len(nw.res.Trace) > 0 {
		nw.res.Trace[len(nw.res.Trace)-1] = fmt.Sprintf("t=%d preempt %s at %s", nw.now, t.Name, SiteName(site))
	}
	nw.yield(t)
}

// yield puts t at the end of the run queue and lets another task run.
func (nw *World) yield(t *Task) {
	if len(nw.runq) == 0 {
		return
	}
	nw.runq = append(nw.runq, t)
	i := nw.C.S.N(len(nw.runq) - 1)
	nw.runIdx(t, i)
}

func (nw *World) runIdx(t *Task, i int) {
	next := nw.runq[i]
	nw.runq = append(nw.runq[:i], nw.runq[i+1:]...)
	nw.res.Switches++
	nw.res.SchedHash = mix(nw.res.SchedHash ^ uint64(next.ID)<<32 ^ uint64(next.lastYS))
	if nw.cfg.Verbose {
		nw.Event("run %s", next.Name)
	} else {
		nw.res.TraceHash = mix(nw.res.TraceHash ^ hashStr("run %s"))
		nw.res.TraceHash = mix(nw.res.TraceHash ^ hashStr(next.Name))
	}
	nw.cur = next
	if next == t {
		return
	}
	next.wake <- struct{}{}
	if t != nil && t.state != done {
		nw.park(t)
	}
}

func (nw *World) park(t *Task) {
	<-t.wake
	if t.kill {
		runtime.Goexit()
	}
}

// schedule gives control away; t is nil, blocked or done.
func (nw *World) schedule(t *Task) {
	for {
		if nw.over {
			if t != nil && t.state != done {
				nw.park(t)
			}
			return
		}
		if len(nw.runq) > 0 {
			i := 0
			if len(nw.runq) > 1 {
				i = nw.C.S.N(len(nw.runq))
			}
			nw.runIdx(t, i)
			return
		}
		if !nw.fireTimer() {
			nw.finish(t)
			return
		}
		for nw.due() {
			// what is due at the same instant can go on at the same time
			nw.fireTimer()
		}
	}
}

func (nw *World) finish(t *Task) {
	if !nw.over {
		nw.over = true
		nw.account()
		nw.doneCh <- struct{}{}
	}
	if t != nil && t.state != done {
		nw.park(t)
	}
}

func (nw *World) fireTimer() bool {
	best := -1
	for i, tm := range nw.timers {
		if best < 0 || tm.at < nw.timers[best].at || (tm.at == nw.timers[best].at && tm.seq < nw.timers[best].seq) {
			best = i
		}
	}
	if best < 0 {
		return false
	}
	tm := nw.timers[best]
	nw.timers = append(nw.timers[:best], nw.timers[best+1:]...)
	if tm.at > nw.now {
		nw.now = tm.at
	}
	if !tm.off {
		tm.fn()
	}
	return true
}

func (nw *World) due() bool {
	for _, tm := range nw.timers {
		if tm.at <= nw.now {
			return true
		}
	}
	return false
}

// After runs fn (which must not block) at now+d.
func (nw *World) After(d int64, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	nw.seq++
	tm := &timer{at: nw.now + d, seq: nw.seq, fn: fn}
	nw.timers = append(nw.timers, tm)
	return tm
}

func (nw *World) spawn(name string, site uint32, fn func()) *Task {
	nw.nextID++
	t := &Task{ID: nw.nextID, Name: fmt.Sprintf("%s#%d", name, nw.nextID), wake: make(chan struct{}, 1), exited: make(chan struct{}), spawnAt: site}
	if nw.cur != nil {
		t.Owner = nw.cur.Owner
	}
	nw.tasks = append(nw.tasks, t)
	nw.res.Tasks++
	nw.runq = append(nw.runq, t)
	go func() {
		clean := false
		defer func() {
			if !clean {
				if r := recover(); r != nil {
					if nw.res.Crash == "" && !nw.dead {
						st := trimStack(string(debug.Stack()))
						nw.res.Crash = fmt.Sprintf("task %s died of an unrecovered panic: %v\n%s", t.Name, r, st)
						nw.Event("crash %s", t.Name)
					}
					if !nw.dead {
						t.state = done
						nw.drop(t)
						nw.finish(t)
						close(t.exited)
						return
					}
				}
			}
			wasDead := nw.dead
			t.state = done
			if !wasDead {
				nw.drop(t)
				nw.schedule(t)
			}
			close(t.exited)
		}()
		<-t.wake
		if t.kill {
			return
		}
		fn()
		clean = true
	}()
	return t
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, ".go:") && !strings.Contains(l, "/simrt/") && !strings.Contains(l, "/runtime/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (nw *World) drop(t *Task) {
	for i, x := range nw.tasks {
		if x == t {
			nw.tasks = append(nw.tasks[:i], nw.tasks[i+1:]...)
			return
		}
	}
}

// block suspends the current task until ready is called on it.
func (nw *World) block(t *Task, why string) {
	t.state = blocked
	t.waitOn = why
	nw.schedule(t)
}

func (nw *World) ready(t *Task) {
	if t.state == blocked {
		t.state = runnable
		nw.runq = append(nw.runq, t)
	}
}

// syncPoint is a scheduling point at a synchronisation operation.
func (nw *World) syncPoint() {
	if nw.syncNum > 0 && len(nw.runq) > 0 && nw.C.S.Chance(nw.syncNum, 8) {
		nw.res.Preempts++
		nw.yield(nw.cur)
	}
}

func me() (*World, *Task) {
	if w == nil || w.dead || w.cur == nil {
		return nil, nil
	}
	return w, w.cur
}

// inDead is true while the tasks of a finished run are torn down.
func inDead() bool { return w != nil && w.dead }

// Yield is a scheduling point.
func Yield() {
	if nw, _ := me(); nw != nil {
		nw.syncPoint()
	}
}

// SetOwner labels the running task and the tasks it will start.
func SetOwner(n int) {
	if _, t := me(); t != nil {
		t.Owner = n
	}
}

// Go starts a simulated task.
func Go(site uint32, fn func()) {
	nw, t := me()
	if nw == nil {
		if inDead() {
			return
		}
		fmt.Fprintln(os.Stderr, "simrt: go statement outside a simulation")
		os.Exit(3)
	}
	_ = t
	nw.spawn(siteTask(site), site, fn)
	nw.syncPoint()
}

func siteTask(site uint32) string {
	if site == 0 {
		return "task"
	}
	return "go@" + SiteName(site)
}

// GoNamed starts a named task (harness side).
func GoNamed(name string, fn func()) {
	nw, _ := me()
	nw.spawn(name, 0, fn)
}

// Gosched yields to any other runnable task.
func Gosched() {
	if nw, t := me(); nw != nil {
		nw.yield(t)
	}
}

// Sleep suspends the task for d simulated nanoseconds.
func (nw *World) Sleep(d int64) {
	t := nw.cur
	nw.After(d, func() { nw.ready(t) })
	nw.block(t, "sleep")
}

// Live is the number of live tasks.
func (nw *World) Live() int { return len(nw.tasks) }

// CurName is the name of the running task.
func (nw *World) CurName() string {
	if nw.cur == nil {
		return ""
	}
	return nw.cur.Name
}

// Stop ends the run at once (harness found a violation).
func (nw *World) Stop() { nw.finish(nw.cur) }

// Verbose reports whether the trace is kept as text.
func (nw *World) Verbose() bool { return nw.cfg.Verbose }
