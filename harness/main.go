package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

type rec struct {
	I      int            `json:"i"`
	Start  bool           `json:"start,omitempty"`
	Trace  uint64         `json:"t,omitempty"`
	Case   uint64         `json:"c,omitempty"`
	Sched  uint64         `json:"s,omitempty"`
	NT     bool           `json:"nt,omitempty"`
	Sims   int            `json:"sims,omitempty"`
	Steps  int64          `json:"st,omitempty"`
	Sim    int64          `json:"sim,omitempty"`
	Sw     int64          `json:"sw,omitempty"`
	Pre    int64          `json:"pre,omitempty"`
	Tasks  int            `json:"tk,omitempty"`
	Faults map[string]int `json:"f,omitempty"`
	Probes map[string]int `json:"p,omitempty"`
	Sample string         `json:"sample,omitempty"`
	Viol   *Violation     `json:"v,omitempty"`
}

// Replay is a replay file.
type Replay struct {
	Property  string     `json:"property"`
	Tier      string     `json:"tier"`
	VerifSeed int64      `json:"verif_seed"`
	Run       int        `json:"run"`
	Seed      uint64     `json:"run_seed"`
	FromSeed  bool       `json:"from_seed,omitempty"` // no recorded streams (the process died)
	W         []int64    `json:"workload_choices"`
	S         []int64    `json:"schedule_choices"`
	F         []int64    `json:"fault_choices"`
	Hash      uint64     `json:"trace_hash"`
	Violation *Violation `json:"violation"`
	Notes     []string   `json:"history,omitempty"`
	Trace     []string   `json:"trace,omitempty"`
	Original  [3]int     `json:"choices_before_minimising"`
	Sample    string     `json:"case,omitempty"`
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

var (
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Int64("seed", 1, "VERIF_SEED")
	fVerif   = flag.String("verif", "", "directory for evidence and replays")
	fKnown   = flag.String("known", "", "known findings file")
	fWorkers = flag.Int("workers", 8, "worker processes")
	fWorker  = flag.Bool("worker", false, "run as worker")
	fFrom    = flag.Int("from", 0, "first run")
	fStep    = flag.Int("step", 1, "stride")
	fCount   = flag.Int("count", 0, "number of runs (0: the tier's)")
	fMin     = flag.Int("minimise", -1, "minimise this run")
	fOut     = flag.String("out", "", "output file")
	fReplay  = flag.String("replay", "", "replay file")
	fCap     = flag.Int("cap", 0, "wall clock cap of the search in seconds")
	fList    = flag.Bool("list", false, "list properties")
	fTrace   = flag.Bool("trace", false, "print the trace when replaying")
	fDet     = flag.Int("det", 0, "determinism proof: run this many seeds twice")
)

func main() {
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	switch {
	case *fList:
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	case *fReplay != "":
		replayMain()
	case *fWorker:
		workerMain()
	case *fMin >= 0:
		minimiseMain()
	default:
		parentMain()
	}
}

func getProp(id string) *Prop {
	p := props[id]
	if p == nil {
		fatal("no property %q", id)
	}
	return p
}

func toRec(i int, x *X) rec {
	return rec{I: i, Trace: x.trace, Case: mix64(x.work ^ mix64(x.sched)), Sched: x.sched, NT: x.nontriv, Sims: x.sims, Steps: x.steps, Sim: x.simtime,
		Sw: x.switches, Pre: x.preempts, Tasks: x.tasks, Faults: x.faults, Probes: x.probes, Viol: x.viol}
}

func quietStd() *os.File {
	out := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	return out
}

func workerMain() {
	p := getProp(*fProp)
	out := bufio.NewWriter(quietStd())
	enc := json.NewEncoder(out)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(200)
	if f := os.Getenv("HARNESS_CPUPROFILE"); f != "" {
		if h, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(h)
			defer pprof.StopCPUProfile()
		}
	}
	n := 0
	for i := *fFrom; i < *fCount; i += *fStep {
		enc.Encode(rec{I: i, Start: true})
		out.Flush()
		x := runOne(p, simrt.NewChoices(runSeed(*fSeed, p.ID, i)), *fTier, false)
		r := toRec(i, x)
		if n < 3 || r.Viol != nil {
			r.Sample = x.sample
		}
		n++
		enc.Encode(r)
		out.Flush()
	}
}

func self() string {
	e, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return e
}

type batch struct {
	p       *Prop
	count   int
	mu      sync.Mutex
	recs    map[int]rec
	deaths  map[int]string
	viol    int // lowest run with an unlisted violation seen so far
	stop    bool
	known   map[string]int
	killers []*exec.Cmd
}

type known struct{ prop, key, what string }

func loadKnown(path string) (l []known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, s := range strings.Split(string(b), "\n") {
		s = strings.TrimSpace(s)
		if !strings.HasPrefix(s, "finding: ") {
			continue
		}
		// finding: property=<id> key=<class|key> :: <what>
		rest := strings.TrimPrefix(s, "finding: ")
		parts := strings.SplitN(rest, " :: ", 2)
		if len(parts) != 2 {
			fatal("bad line in %s: %s", path, s)
		}
		f := strings.SplitN(parts[0], " key=", 2)
		if len(f) != 2 || !strings.HasPrefix(f[0], "property=") {
			fatal("bad line in %s: %s", path, s)
		}
		l = append(l, known{strings.TrimPrefix(f[0], "property="), strings.TrimSpace(f[1]), parts[1]})
	}
	return
}

func isKnown(l []known, prop string, v *Violation) int {
	for i, k := range l {
		if k.prop == prop && k.key == v.Class+"|"+v.Key {
			return i
		}
	}
	return -1
}

func (b *batch) worker(from, step int, deadline time.Time, kl []known) {
	for from < b.count {
		if time.Now().After(deadline) {
			return
		}
		cmd := exec.Command(self(), "-worker", "-prop", b.p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-from", fmt.Sprint(from), "-step", fmt.Sprint(step), "-count", fmt.Sprint(b.count))
		pr, err := cmd.StdoutPipe()
		if err != nil {
			fatal("%v", err)
		}
		var errb tail
		cmd.Stderr = &errb
		if err := cmd.Start(); err != nil {
			fatal("%v", err)
		}
		stopped := make(chan struct{})
		var lastMu sync.Mutex
		lastAct := time.Now()
		slow := false
		go func() {
			for {
				select {
				case <-stopped:
					return
				case <-time.After(100 * time.Millisecond):
				}
				b.mu.Lock()
				st := b.stop
				b.mu.Unlock()
				lastMu.Lock()
				stuck := time.Since(lastAct) > 240*time.Second
				lastMu.Unlock()
				if st || stuck || time.Now().After(deadline) {
					slow = stuck
					cmd.Process.Kill()
					return
				}
			}
		}()
		sc := bufio.NewReaderSize(pr, 1<<20)
		cur := -1
		for {
			line, err := sc.ReadBytes('\n')
			if err != nil {
				break
			}
			var r rec
			if json.Unmarshal(line, &r) != nil {
				continue
			}
			lastMu.Lock()
			lastAct = time.Now()
			lastMu.Unlock()
			if r.Start {
				cur = r.I
				continue
			}
			b.mu.Lock()
			b.recs[r.I] = r
			if r.Viol != nil && isKnown(kl, b.p.ID, r.Viol) < 0 {
				if b.viol < 0 || r.I < b.viol {
					b.viol = r.I
				}
				b.stop = true
			}
			b.mu.Unlock()
			cur = -1
			from = r.I + step
		}
		io.Copy(io.Discard, pr)
		cmd.Wait()
		close(stopped)
		b.mu.Lock()
		st := b.stop
		b.mu.Unlock()
		if st || time.Now().After(deadline) {
			return
		}
		if slow {
			fatal("run %d of %s took over 240 s of real time", cur, b.p.ID)
		}
		if cur >= 0 {
			// the worker died inside run cur
			b.mu.Lock()
			n := b.deaths[cur]
			b.deaths[cur] = errb.String()
			first := n == ""
			if !first {
				b.stop = true
				if b.viol < 0 || cur < b.viol {
					b.viol = cur
				}
				b.recs[cur] = rec{I: cur, Viol: deathViolation(errb.String())}
			}
			b.mu.Unlock()
			from = cur
			if b.deaths[cur] == "" {
				b.deaths[cur] = "killed"
			}
			if !first {
				return
			}
		}
	}
}

func deathViolation(stderr string) *Violation {
	key := "unknown"
	for _, l := range strings.Split(stderr, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "exceeds") || strings.Contains(l, "panic:") {
			key = strings.TrimSpace(l)
			break
		}
	}
	if key == "unknown" {
		fatal("a worker died twice on the same run without a Go fatal error (killed from outside, out of memory?): %s", stderr)
	}
	return &Violation{Class: "process-death", Key: key, Detail: "the whole process died: " + firstN(stderr, 1500)}
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// tail keeps the first 4 KB of what is written to it.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 8192 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func parentMain() {
	p := getProp(*fProp)
	begin := time.Now()
	count := p.Quick
	limit := 420
	if *fTier == "thorough" {
		count = p.Thorough
		limit = 3 * 3600
	}
	if *fCount > 0 {
		count = *fCount
	}
	if *fCap > 0 {
		limit = *fCap
	}
	kl := loadKnown(*fKnown)
	b := &batch{p: p, count: count, recs: map[int]rec{}, deaths: map[int]string{}, viol: -1}
	deadline := begin.Add(time.Duration(limit) * time.Second)
	var wg sync.WaitGroup
	nw := *fWorkers
	if nw > count {
		nw = count
	}
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) { defer wg.Done(); b.worker(k, nw, deadline, kl) }(k)
	}
	wg.Wait()
	searchWall := time.Since(begin).Seconds()

	// determinism: some runs again, in fresh processes that execute them in
	// another order and grouping; outcome and trace hashes must be equal.
	detN := 0
	if b.viol < 0 {
		k := *fDet
		if k == 0 {
			k = 24
			if k > len(b.recs)/8+1 {
				k = len(b.recs)/8 + 1
			}
		}
		detN = detCheck(b, k)
	}

	// evidence
	ev := evidence(b, searchWall, detN)
	nviol := 0
	var line string
	if b.viol >= 0 {
		nviol = 1
		path := minimiseAndWrite(b)
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path)
	}
	ev["violations"] = nviol
	ev["wall_s"] = time.Since(begin).Seconds()
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), append(js, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	hit := map[int]bool{}
	for _, r := range b.recs {
		if r.Viol != nil {
			if k := isKnown(kl, p.ID, r.Viol); k >= 0 {
				hit[k] = true
			}
		}
	}
	for i, k := range kl {
		if k.prop != p.ID {
			continue
		}
		// every listed finding is reported, whether or not this batch met it again
		s := ""
		if !hit[i] {
			s = " (not met in this batch)"
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s%s\n", p.ID, k.what, s)
	}
	cov := ev["coverage"].(map[string]interface{})
	fmt.Printf("%s %s: %v runs, %v distinct non-trivial, %v faults, %.0f s\n", p.ID, *fTier, cov["evaluations"], cov["distinct_nontrivial"], cov["faults_total"], time.Since(begin).Seconds())
	if line != "" {
		fmt.Println(b.recs[b.viol].Viol.Class + ": " + b.recs[b.viol].Viol.Detail)
		fmt.Println(line)
		os.Exit(1)
	}
	if len(b.recs) < count/20 || len(b.recs) == 0 {
		fatal("only %d of %d runs were completed in %d s", len(b.recs), count, limit)
	}
}

func detCheck(b *batch, k int) int {
	var ids []int
	for i, r := range b.recs {
		if r.Viol == nil && b.deaths[i] == "" {
			ids = append(ids, i)
		}
	}
	sort.Ints(ids)
	if len(ids) == 0 {
		return 0
	}
	if k > len(ids) {
		k = len(ids)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	n := 0
	sem := make(chan bool, 5)
	for j := 0; j < k; j++ {
		id := ids[len(ids)*j/k]
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			out, err := exec.Command(self(), "-worker", "-prop", b.p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-from", fmt.Sprint(id), "-step", "1000000000", "-count", fmt.Sprint(id+1)).Output()
			if err != nil {
				mu.Lock()
				bad = fmt.Sprintf("run %d: %v", id, err)
				mu.Unlock()
				return
			}
			for _, l := range strings.Split(string(out), "\n") {
				var r rec
				if json.Unmarshal([]byte(l), &r) != nil || r.Start {
					continue
				}
				mu.Lock()
				n++
				o := b.recs[id]
				if r.Trace != o.Trace || r.Case != o.Case || r.Steps != o.Steps {
					bad = fmt.Sprintf("run %d does not repeat: trace %x/%x case %x/%x steps %d/%d", id, r.Trace, o.Trace, r.Case, o.Case, r.Steps, o.Steps)
				}
				mu.Unlock()
			}
		}(id)
	}
	wg.Wait()
	if bad != "" {
		fatal("NOT DETERMINISTIC: %s", bad)
	}
	return n
}

func evidence(b *batch, wall float64, detN int) map[string]interface{} {
	p := b.p
	faults := map[string]int{}
	probes := map[string]int{}
	cases := map[uint64]bool{}
	scheds := map[uint64]bool{}
	var sims, tasks, ft int
	var steps, simt, sw, pre int64
	var samples []interface{}
	var ids []int
	for i := range b.recs {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	for _, i := range ids {
		r := b.recs[i]
		for k, v := range r.Faults {
			faults[k] += v
			ft += v
		}
		for k, v := range r.Probes {
			probes[k] += v
		}
		if r.NT {
			cases[r.Case] = true
		}
		scheds[r.Sched] = true
		sims += r.Sims
		tasks += r.Tasks
		steps += r.Steps
		simt += r.Sim
		sw += r.Sw
		pre += r.Pre
		if r.Sample != "" && len(samples) < 6 {
			samples = append(samples, map[string]interface{}{"run": i, "run_seed": fmt.Sprintf("%d", runSeed(*fSeed, p.ID, i)), "case": firstN(r.Sample, 1200)})
		}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	var zero []string
	for _, k := range p.FaultKinds {
		if faults[k] == 0 {
			zero = append(zero, k)
		}
	}
	cov := map[string]interface{}{
		"evaluations":                 len(b.recs),
		"distinct_nontrivial":         len(cases),
		"rule":                        p.Rule,
		"samples":                     samples,
		"simulated_processes":         sims,
		"distinct_schedules":          len(scheds),
		"schedule_measure":            "hash over the sequence of (task resumed, statement it resumes at) of all simulated processes of a run",
		"context_switches":            sw,
		"forced_preemptions":          pre,
		"tasks_spawned":               tasks,
		"statements_executed":         steps,
		"simulated_seconds":           float64(simt) / 1e9,
		"runs_per_hour_one_seed_each": int(float64(len(b.recs)) / wall * 3600),
		"search_wall_s":               wall,
		"faults_fired":                faults,
		"faults_total":                ft,
		"fault_kinds_never_fired":     zero,
		"situations_reached":          probes,
		"determinism_rechecked_runs":  detN,
		"real_components":             p.Real,
		"stubbed_components":          p.Stub,
		"worker_processes":            *fWorkers,
	}
	return map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration", "coverage": cov, "assumptions": p.Assume,
	}
}

// ---- minimisation and replay ----

func minimiseAndWrite(b *batch) string {
	v := b.recs[b.viol].Viol
	dir := filepath.Join(*fVerif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d-run%d.json", b.p.ID, *fTier, *fSeed, b.viol))
	if b.deaths[b.viol] != "" {
		r := Replay{Property: b.p.ID, Tier: *fTier, VerifSeed: *fSeed, Run: b.viol, Seed: runSeed(*fSeed, b.p.ID, b.viol), FromSeed: true, Violation: v}
		writeReplay(path, &r)
		return path
	}
	cmd := exec.Command(self(), "-minimise", fmt.Sprint(b.viol), "-prop", b.p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-out", path)
	var errb tail
	cmd.Stderr = &errb
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			// a shrunk candidate may kill the process: fall back to the seed
			r := Replay{Property: b.p.ID, Tier: *fTier, VerifSeed: *fSeed, Run: b.viol, Seed: runSeed(*fSeed, b.p.ID, b.viol), FromSeed: true, Violation: v}
			writeReplay(path, &r)
		}
	case <-time.After(200 * time.Second):
		cmd.Process.Kill()
		r := Replay{Property: b.p.ID, Tier: *fTier, VerifSeed: *fSeed, Run: b.viol, Seed: runSeed(*fSeed, b.p.ID, b.viol), FromSeed: true, Violation: v}
		writeReplay(path, &r)
	}
	// the file must reproduce in a fresh process
	out, err := exec.Command(self(), "-replay", path).CombinedOutput()
	if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
		fatal("the replay file %s does not reproduce: %v %s", path, err, out)
	}
	return path
}

func writeReplay(path string, r *Replay) {
	js, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, append(js, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func minimiseMain() {
	p := getProp(*fProp)
	quietStd()
	seed := runSeed(*fSeed, p.ID, *fMin)
	c := simrt.NewChoices(seed)
	x := runOne(p, c, *fTier, false)
	if x.viol == nil {
		fatal("run %d of %s found nothing this time", *fMin, p.ID)
	}
	class := x.viol.Class
	cur := [3][]int64{clone(c.W.Rec), clone(c.S.Rec), clone(c.F.Rec)}
	orig := [3]int{len(cur[0]), len(cur[1]), len(cur[2])}
	deadline := time.Now().Add(60 * time.Second)
	if *fTier == "thorough" {
		deadline = time.Now().Add(150 * time.Second)
	}
	try := func(cand [3][]int64) bool {
		c := simrt.ReplayChoices(cand[0], cand[1], cand[2])
		x := runOne(p, c, *fTier, false)
		if x.viol != nil && x.viol.Class == class {
			cur = [3][]int64{trim(clone(c.W.Rec)), trim(clone(c.S.Rec)), trim(clone(c.F.Rec))}
			return true
		}
		return false
	}
	try(cur)
	with := func(k int, v []int64) [3][]int64 {
		n := cur
		n[k] = v
		return n
	}
	for round := 0; round < 4; round++ {
		before := size(cur)
		for _, k := range []int{2, 1, 0} {
			if time.Now().After(deadline) {
				break
			}
			if len(cur[k]) > 0 {
				try(with(k, nil))
			}
			// drop or zero chunks
			for chunk := (len(cur[k]) + 1) / 2; chunk >= 1; chunk /= 2 {
				for at := 0; at < len(cur[k]); at += chunk {
					if time.Now().After(deadline) {
						break
					}
					end := at + chunk
					if end > len(cur[k]) {
						end = len(cur[k])
					}
					del := append(clone(cur[k][:at]), cur[k][end:]...)
					if try(with(k, del)) {
						at -= chunk
						if at < -chunk {
							at = -chunk
						}
						continue
					}
					z := clone(cur[k])
					nz := false
					for j := at; j < end && j < len(z); j++ {
						nz = nz || z[j] != 0
						z[j] = 0
					}
					if nz {
						try(with(k, z))
					}
				}
				if chunk == 1 {
					break
				}
			}
			// lower single values
			for at := 0; at < len(cur[k]); at++ {
				for at < len(cur[k]) && cur[k][at] > 1 && !time.Now().After(deadline) {
					lo := clone(cur[k])
					lo[at] = lo[at] / 2
					if !try(with(k, lo)) {
						lo = clone(cur[k])
						lo[at]--
						if !try(with(k, lo)) {
							break
						}
					}
				}
			}
		}
		if size(cur) >= before || time.Now().After(deadline) {
			break
		}
	}
	fc := simrt.ReplayChoices(cur[0], cur[1], cur[2])
	fx := runOne(p, fc, *fTier, true)
	if fx.viol == nil {
		fatal("minimised run lost the violation")
	}
	tr := fx.tracet
	if len(tr) > 400 {
		tr = append(tr[:200:200], append([]string{"..."}, tr[len(tr)-199:]...)...)
	}
	writeReplay(*fOut, &Replay{Property: p.ID, Tier: *fTier, VerifSeed: *fSeed, Run: *fMin, Seed: seed, W: cur[0], S: cur[1], F: cur[2], Hash: fx.trace, Violation: fx.viol, Notes: fx.notes, Trace: tr, Original: orig, Sample: fx.sample})
}

func clone(a []int64) []int64 { return append([]int64(nil), a...) }
func trim(a []int64) []int64 {
	for len(a) > 0 && a[len(a)-1] == 0 {
		a = a[:len(a)-1]
	}
	return a
}
func size(a [3][]int64) (n int64) {
	for _, s := range a {
		n += int64(len(s)) * 1000
		for _, v := range s {
			if v != 0 {
				n += 100
			}
		}
	}
	return
}

// replayMain exits 1 when the violation in the file happens again, 0 when the
// run is clean, 2 otherwise.
func replayMain() {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fatal("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	p := getProp(r.Property)
	out := quietStd()
	var c *simrt.Choices
	if r.FromSeed {
		c = simrt.NewChoices(r.Seed)
		if os.Getenv("HARNESS_INNER") == "" && r.Violation.Class == "process-death" {
			cmd := exec.Command(self(), "-replay", *fReplay)
			cmd.Env = append(os.Environ(), "HARNESS_INNER=1")
			var errb tail
			cmd.Stderr = &errb
			err := cmd.Run()
			if err == nil {
				fmt.Fprintln(out, "the run is clean")
				return
			}
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 2 && strings.Contains(errb.String(), "goroutine") {
				fmt.Fprintf(out, "%s: %s\n", r.Violation.Class, firstN(errb.String(), 1500))
				fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", p.ID, *fReplay)
				os.Exit(1)
			}
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
				os.Exit(1)
			}
			fatal("%v %s", err, errb.String())
		}
	} else {
		c = simrt.ReplayChoices(r.W, r.S, r.F)
	}
	x := runOne(p, c, r.Tier, true)
	if *fTrace {
		for _, l := range x.notes {
			fmt.Fprintln(out, l)
		}
		for _, l := range x.tracet {
			fmt.Fprintln(out, l)
		}
	}
	if x.viol == nil {
		fmt.Fprintln(out, "the run is clean")
		return
	}
	same := r.FromSeed || (x.trace == r.Hash && x.viol.Detail == r.Violation.Detail)
	fmt.Fprintf(out, "%s (%s): %s\nexact repetition of the recorded run: %v\n", x.viol.Class, x.viol.Key, x.viol.Detail, same)
	if !same && x.viol.Class != r.Violation.Class {
		fatal("another violation than the recorded one")
	}
	fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", p.ID, *fReplay)
	os.Exit(1)
}
