package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C10", Quick: 1200, Thorough: 200000,
		Rule:       "A run draws a program of up to 10 gates, satisfying inputs, an authority, 1-2 provers and 1-2 verifiers, each with its own compilation. The authority makes the key (dense or sparse), stores it on its simulated disk and hands it out; provers compute witness, polynomial and proof (dense or sparse, several proofs, also the same one twice) and send it to the verifiers until each has answered; verifiers verify, also repeatedly and at the same time. Keys are shared in memory or travel and rest as bytes. The network loses, repeats, delays and reorders messages and is partitioned, nodes crash between any two steps and restart from what was durable (torn and lost files included), the wall clock jumps, until the faults stop. Every proof must then be accepted by every verifier within a bounded number of steps; key, witness, polynomial, proof and public inputs must be unchanged; equal witness and key must give equal proofs in both representations. Non-trivial: a proof was accepted in a run with a fault.",
		Real:       []string{"circuitcompiler, utils, pairing, zkSNARK: all of it"},
		Stub:       []string{"network, disk, wall clock, random device, goroutine scheduler (simulated)", "messages and files are framed by the harness; the library only serialises elements"},
		Assume:     []string{"every party runs in the same simulated process, so a crash discards a node's data and results, not the library's caches", "programs whose witness is public altogether are refused by the setup and left out", "lost messages are sent again by the parties"},
		FaultKinds: []string{"message-lost", "message-duplicated", "message-delayed", "message-cut-by-partition", "partition", "crash", "torn-file", "lost-file", "clock_jump", "stalled-client"},
		Run:        runC10,
	})
}

type c10job struct {
	sparse bool
	in     int // which inputs
}

type c10node struct {
	id, epoch int
	up        bool
}

type c10 struct {
	x      *X
	p      *program
	src    string
	inputs [][]*big.Int
	jobs   [][]c10job // of the provers
	np, nv int
	bytes  bool // keys travel as bytes
	skey   bool
	end    int64
	again  int // chance of verifying again

	w      *simrt.World
	net    *Net
	nodes  []*c10node
	mem    map[string]*zkSNARK.Pk // keys by their bytes, when shared in memory
	dumps  map[*zkSNARK.Pk]string
	made   []*zkSNARK.Pk   // the keys of dumps, in the order they came up
	answer map[[3]int]bool // prover, job, verifier
	proofs map[string]string
	done   int
	stop   bool
	random bool
	busy   int
	crowd  bool // parties start to prove and to verify at the same time
}

func (r *c10) alive(n *c10node, ep int) bool { return !r.stop && n.up && n.epoch == ep }

// step is a place where the node can crash.
func (r *c10) step(n *c10node, ep int) bool {
	if r.w.Now() < r.end {
		switch r.w.C.F.Pick(3, 2, 1) {
		case 1:
			r.w.Sleep(int64(1+r.w.C.F.N(300)) * 1000)
		case 2:
			r.w.Fault("stalled-client")
			r.w.Sleep(int64(1+r.w.C.F.N(3000)) * 1000)
		}
	}
	return r.alive(n, ep)
}

// together waits for a moment at which others go on as well.
func (r *c10) together() {
	if r.crowd {
		const beat = 3000000
		r.w.Sleep(beat - r.w.Now()%beat)
	}
}

func frame(b []byte) []byte {
	h := hash64(string(b))
	f := []byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}
	for i := 0; i < 8; i++ {
		f = append(f, byte(h>>(8*uint(i))))
	}
	return append(f, b...)
}

func unframe(b []byte) ([]byte, bool) {
	if len(b) < 11 {
		return nil, false
	}
	c := b[11:]
	return c, bytes.Equal(frame(c), b)
}

func (r *c10) file(n int, name string) string { return fmt.Sprintf("node%d/%s", n, name) }

func (r *c10) store(n *c10node, ep int, name string, b []byte) bool {
	if !r.step(n, ep) {
		return false
	}
	r.w.Disk.Write(r.file(n.id, name), frame(b))
	if !r.step(n, ep) {
		return false
	}
	r.w.Disk.Sync(r.file(n.id, name))
	return r.step(n, ep)
}

func (r *c10) load(n int, name string) ([]byte, bool) {
	b, ok := r.w.Disk.Get(r.file(n, name))
	if !ok {
		return nil, false
	}
	return unframe(b)
}

func (r *c10) crash(i int) {
	n := r.nodes[i]
	if !n.up || r.stop {
		return
	}
	r.w.Fault("crash")
	n.up = false
	n.epoch++
	r.net.Down(i)
	names := []string{"key"}
	if i > 0 && i <= r.np {
		for k := range r.jobs[i-1] {
			names = append(names, fmt.Sprint("proof", k))
		}
	}
	for _, m := range names {
		f := r.file(i, m)
		before, _ := r.w.Disk.Get(f)
		r.w.Disk.CrashPath(f, func(k int) int {
			if r.w.C.F.Chance(1, 3) {
				return 0
			}
			return r.w.C.F.N(k)
		})
		if after, ok := r.w.Disk.Get(f); len(after) != len(before) {
			if ok && len(after) > 0 {
				r.w.Fault("torn-file")
			} else {
				r.w.Fault("lost-file")
			}
		}
	}
	r.w.After(int64(1+r.w.C.F.N(4000))*1000, func() { r.start(i) })
}

func (r *c10) start(i int) {
	if r.stop {
		return
	}
	n := r.nodes[i]
	n.up = true
	r.net.Up(i)
	ep := n.epoch
	simrt.GoNamed(fmt.Sprintf("node%d.%d", i, ep), func() {
		txt, bad := TryS(func() {
			switch {
			case i == 0:
				r.authority(n, ep)
			case i <= r.np:
				r.prover(n, ep)
			default:
				r.verifier(n, ep)
			}
		})
		if bad {
			r.x.Fail("party-panic", "party-panic", "a party got a panic on honest input: %s\n%s\n%v", txt, r.src, r.inputs)
		}
	})
}

// keep remembers what a key looks like to see whether it changes.
func (r *c10) keep(pk *zkSNARK.Pk) *zkSNARK.Pk {
	r.dumps[pk] = pkDump(pk)
	r.made = append(r.made, pk)
	return pk
}

func (r *c10) authority(n *c10node, ep int) {
	z := r.compile()
	if z == nil {
		return
	}
	b, ok := r.load(0, "key")
	if !ok {
		s, err := z.setup(r.skey)
		if err != nil {
			r.x.Fail("setup-failed", "setup-failed", "the setup failed: %v\n%s", err, r.src)
			return
		}
		pk := &s.Pk
		if b = pkWrite(pk); b == nil {
			r.bytes = false
			b = []byte(fmt.Sprint("key", len(r.mem)))
		}
		r.mem[string(b)] = r.keep(pk)
		if !r.store(n, ep, "key", b) {
			return
		}
	}
	for r.alive(n, ep) {
		m, ok := r.net.Recv(n.id, 1000000)
		if !ok || !r.alive(n, ep) || m.Kind != "getkey" {
			continue
		}
		if !r.step(n, ep) {
			return
		}
		r.net.Send(Msg{From: 0, To: m.From, Kind: "key", Body: frame(b)})
	}
}

func (r *c10) compile() *zkprog {
	z := compileZk(r.p, r.src)
	if r.random {
		z.a.dense, z.a.sparse = z.a.prog.GatesToR1CS(z.a.gates, true), z.a.prog.GatesToSparseR1CS(z.a.gates, true)
		z.sys = csysDense(z.a.prog, z.a.dense)
		z.td, z.ts = z.a.dense.Transpose(), z.a.sparse.TransposeSparse()
	}
	return z
}

// key gets the key from the disk or the authority.
func (r *c10) key(n *c10node, ep int) *zkSNARK.Pk {
	b, ok := r.load(n.id, "key")
	for !ok && r.alive(n, ep) {
		r.net.Send(Msg{From: n.id, To: 0, Kind: "getkey"})
		for until := r.w.Now() + 2000000; r.w.Now() < until && r.alive(n, ep); {
			m, got := r.net.Recv(n.id, until-r.w.Now())
			if got && m.Kind == "key" {
				if b, ok = unframe(m.Body); ok {
					if !r.store(n, ep, "key", b) {
						return nil
					}
					break
				}
			}
		}
	}
	if !ok {
		return nil
	}
	if pk := r.mem[string(b)]; pk != nil && !r.bytes {
		return pk
	}
	pk := pkRead(b)
	if pk == nil {
		r.x.Fail("key-refused", "key-refused", "a key that was serialised cannot be read any more\n%s", r.src)
		return nil
	}
	if !r.bytes {
		r.mem[string(b)] = pk
	}
	return r.keep(pk)
}

func (r *c10) prover(n *c10node, ep int) {
	x := r.x
	z := r.compile()
	for k, j := range r.jobs[n.id-1] {
		name := fmt.Sprint("proof", k)
		at := func() string {
			return fmt.Sprintf("inputs %s, key sparse=%v, prover %d job %d sparse=%v\n%s", ints(r.inputs[j.in]), r.skey, n.id, k, j.sparse, r.src)
		}
		b, ok := r.load(n.id, name)
		if !ok {
			pk := r.key(n, ep)
			if pk == nil || !r.step(n, ep) {
				return
			}
			in := cloneInts(r.inputs[j.in])
			w, err := z.witness(j.sparse, in)
			if err != nil {
				x.Fail("witness-refused", "witness-refused", "no witness for satisfying inputs: %v\n%s", err, at())
				return
			}
			if !sameInts(in, r.inputs[j.in]) {
				x.Fail("changed", "changed|inputs", "computing the witness changed the inputs\n%s", at())
			}
			if i := z.sys.unsatisfied(w); i >= 0 {
				x.Fail("witness-wrong", "witness-wrong", "the witness %s does not satisfy constraint %d\n%s", ints(w), i, at())
				return
			}
			held := cloneInts(w)
			if !r.step(n, ep) {
				return
			}
			r.together()
			proof := r.prove(z, pk, w, j.sparse, at)
			if proof == nil {
				return
			}
			if !sameInts(held, w) {
				x.Fail("changed", "changed|witness", "proving changed the witness %s to %s\n%s", ints(held), ints(w), at())
			}
			id := fmt.Sprintf("%x %s", hash64(pkDump(pk)), ints(w))
			if o, ok := r.proofs[id]; ok && o != proofFp(proof) {
				x.Fail("proofs-differ", "proofs-differ", "equal witness and key gave another proof\n%s", at())
			}
			r.proofs[id] = proofFp(proof)
			if z.expoConst(w) {
				b = []byte{1}
			} else {
				b = []byte{0}
			}
			b = append(b, byte(z.pub))
			for _, v := range w[:z.pub] {
				b = put32(b, v)
			}
			b = append(b, proofBytes(proof)...)
			if !r.store(n, ep, name, b) {
				return
			}
		}
		for r.alive(n, ep) {
			missing := false
			for v := 0; v < r.nv; v++ {
				if !r.answer[[3]int{n.id, k, v}] {
					missing = true
					r.net.Send(Msg{From: n.id, To: 1 + r.np + v, Kind: "proof", ID: k, Body: frame(b)})
				}
			}
			if !missing {
				break
			}
			for until := r.w.Now() + 2000000; r.w.Now() < until && r.alive(n, ep); {
				m, got := r.net.Recv(n.id, until-r.w.Now())
				if !got || m.Kind != "answer" {
					continue
				}
				if !r.answer[[3]int{n.id, m.ID, m.From - 1 - r.np}] {
					r.answer[[3]int{n.id, m.ID, m.From - 1 - r.np}] = true
					r.done++
				}
				if m.ID == k {
					missing = false
					for v := 0; v < r.nv; v++ {
						missing = missing || !r.answer[[3]int{n.id, k, v}]
					}
					if !missing {
						break
					}
				}
			}
		}
	}
}

// prove also checks that the polynomial stays as it is.
func (r *c10) prove(z *zkprog, pk *zkSNARK.Pk, w []*big.Int, sparse bool, at func() string) *zkSNARK.Proof {
	var proof *zkSNARK.Proof
	var err error
	same := true
	if r.busy++; r.busy > 1 {
		r.w.Probe("proving at the same time")
	}
	defer func() { r.busy-- }()
	if sparse {
		px := zkSNARK.CombineSparsePolynomials(w, z.ts)
		before, _ := treePoly(px)
		proof, err = zkSNARK.GenerateProof_Sparse(z.pub, pk, w, px)
		after, _ := treePoly(px)
		same = pEq(before, after)
	} else {
		px := zkSNARK.CombinePolynomials2(w, z.td)
		before := cloneInts(px)
		proof, err = zkSNARK.GenerateProofs(z.pub, pk, w, px)
		same = sameInts(before, px)
	}
	if err != nil || proof == nil {
		r.x.Fail("proof-failed", "proof-failed", "no proof for a satisfying witness: %v\n%s", err, at())
		return nil
	}
	if !same {
		r.x.Fail("changed", "changed|polynomial", "proving changed the polynomial\n%s", at())
	}
	return proof
}

func (r *c10) verifier(n *c10node, ep int) {
	x := r.x
	var pk *zkSNARK.Pk
	cache := map[[2]int]bool{}
	for r.alive(n, ep) {
		if pk == nil {
			if pk = r.key(n, ep); pk == nil {
				return
			}
		}
		m, got := r.net.Recv(n.id, 1000000)
		if !got || m.Kind != "proof" || !r.step(n, ep) {
			continue
		}
		b, ok := unframe(m.Body)
		if !ok {
			continue
		}
		id := [2]int{m.From, m.ID}
		times := 1
		if cache[id] {
			times = 0
			if r.w.C.W.Chance(1, 6) {
				times = 1
			}
		} else if r.w.C.W.Chance(1, r.again) {
			times = 2
		}
		constExpo, np := b[0] == 1, int(b[1])
		var pub []*big.Int
		for i := 0; i < np; i++ {
			pub = append(pub, new(big.Int).SetBytes(b[2+32*i:34+32*i]))
		}
		at := func() string {
			return fmt.Sprintf("public %s, proof of prover %d job %d, key sparse=%v as bytes=%v\n%s", ints(pub), m.From, m.ID, r.skey, r.bytes, r.src)
		}
		proof := readProof(b[2+32*np:])
		if proof == nil {
			x.Fail("proof-refused", "proof-refused", "a proof that was serialised cannot be read any more\n%s", at())
			return
		}
		held, fp := cloneInts(pub), proofFp(proof)
		if times > 0 {
			r.together()
		}
		for ; times > 0; times-- {
			ok := zkSNARK.VerifyProof(pk, proof, pub, r.w.C.W.Chance(1, 4))
			if !ok && !constExpo {
				// the scheme's own flaw, see DESIGN.md
				x.Fail("expo-rejected", "exponents differ between gates", "an honest proof of a program with scalarBaseMultiply or the randomising gate was rejected\n%s", at())
				return
			}
			if !ok {
				x.Fail("honest-rejected", "honest-rejected", "an honest proof was rejected (seen before: %v)\n%s", cache[id], at())
				return
			}
			if cache[id] {
				r.w.Probe("verified again")
			}
			cache[id] = true
			x.Probe("honest proof accepted")
			if !sameInts(held, pub) {
				x.Fail("changed", "changed|public inputs", "verifying changed the public inputs\n%s", at())
			}
			if proofFp(proof) != fp {
				x.Fail("changed", "changed|proof", "verifying changed the proof\n%s", at())
			}
		}
		if !r.alive(n, ep) {
			return
		}
		r.net.Send(Msg{From: n.id, To: m.From, Kind: "answer", ID: m.ID, Body: []byte{1}})
	}
}

func runC10(x *X) {
	c := x.C
	max := 6
	if c.W.Chance(1, 12) {
		max = 12
	}
	stmts := 2
	if c.W.Chance(1, 60) {
		max, stmts = 40, 20
	}
	cfg0 := langCfg{stmts: stmts, expo: c.W.Chance(1, 6), div: true, small: c.W.Chance(2, 3)}
	tall := c.W.Chance(1, 40)
	if tall {
		max, cfg0 = 90, langCfg{stmts: 1, small: true, tall: 12 + c.W.N(60)}
	}
	p, src := drawZk(x, max, cfg0)
	if p == nil || x.Failed() {
		x.Probe("left-out: too large")
		return
	}
	if tall {
		x.Probe("more than 12 constraints in a row")
	}
	r := &c10{x: x, p: p, src: src}
	for k := 1 + c.W.N(2); k > 0; k-- {
		for try := 0; try < 4; try++ {
			if ev := p.eval(p.drawInputs(c)); ev.ok && !ev.unsat && !ev.ambiguous {
				r.inputs = append(r.inputs, cloneInts(ev.inputs))
				break
			}
		}
	}
	if len(r.inputs) == 0 {
		x.Probe("left-out: no satisfying inputs")
		return
	}
	r.np, r.nv = 1+c.W.Pick(2, 1), 1+c.W.Pick(3, 1)
	for i := 0; i < r.np; i++ {
		var l []c10job
		for k := 1 + c.W.Pick(3, 1); k > 0; k-- {
			l = append(l, c10job{sparse: c.W.Chance(1, 2), in: c.W.N(len(r.inputs))})
		}
		r.jobs = append(r.jobs, l)
	}
	if tall {
		r.np, r.jobs = 1, r.jobs[:1]
	} else if r.crowd = c.W.Chance(1, 3); r.crowd {
		r.np, r.nv = 2+c.W.N(2), 1+c.W.N(2)
		for len(r.jobs) < r.np {
			r.jobs = append(r.jobs, []c10job{{sparse: c.W.Chance(1, 2), in: c.W.N(len(r.inputs))}})
		}
		// most of them on the same path
		path := c.W.N(3)
		for _, l := range r.jobs {
			for k := range l {
				if path < 2 {
					l[k].sparse = path == 1
				}
			}
		}
	}
	r.bytes, r.skey = c.W.Chance(1, 2), c.W.Chance(1, 2)
	r.again = 1 + c.W.N(6)
	r.random = c.W.Chance(1, 30)
	faulty := c.F.Chance(4, 5)
	r.end = int64(20000000)
	cfg := NetCfg{FaultsEnd: r.end}
	type ev struct {
		t    int64
		what int
		n, m int
		d    int64
	}
	var evs []ev
	all := 1 + r.np + r.nv
	if faulty {
		cfg.Loss, cfg.Dup, cfg.Late = c.F.N(300), c.F.N(300), c.F.N(500)
		n := c.F.N(5)
		if tall {
			n /= 4
		}
		for k := n; k > 0; k-- {
			evs = append(evs, ev{t: int64(1+c.F.N(12000)) * 1000, what: c.F.Pick(4, 2, 1), n: c.F.N(all), m: c.F.N(all), d: int64(1+c.F.N(6000)) * 1000})
		}
	}
	x.Work(fmt.Sprint(src, r.np, r.nv, r.jobs, r.bytes, r.skey))
	for _, in := range r.inputs {
		x.Work(ints(in))
	}
	x.Sample("%sinputs %s, jobs %v, %d verifiers, keys as bytes=%v, events %v", src, ints(r.inputs[0]), r.jobs, r.nv, r.bytes, evs)
	budget := int64(2000000000)
	if tall {
		budget *= 4
	}
	x.Sim(Opt{Budget: budget, Busy: r.crowd}, func() {
		r.w = simrt.Cur()
		r.w.Entropy.Seed(uint64(c.W.Salt()))
		r.net = newNet(all, cfg)
		r.mem, r.dumps, r.answer, r.proofs = map[string]*zkSNARK.Pk{}, map[*zkSNARK.Pk]string{}, map[[3]int]bool{}, map[string]string{}
		want := 0
		for _, l := range r.jobs {
			want += len(l) * r.nv
		}
		for i := 0; i < all; i++ {
			r.nodes = append(r.nodes, &c10node{id: i})
			r.start(i)
		}
		for _, e := range evs {
			e := e
			r.w.After(e.t, func() {
				switch e.what {
				case 0:
					r.crash(e.n)
				case 1:
					if e.n != e.m && !r.stop {
						r.net.Partition(e.n, e.m, r.w.Now()+e.d)
					}
				case 2:
					r.w.ClockJump(e.d * 1000 * int64(1-2*(e.n%2)))
				}
			})
		}
		limit := r.end + 400000000
		for r.done < want && r.w.Now() < limit && !x.Failed() {
			r.w.Sleep(500000)
		}
		if !x.Failed() && r.done < want {
			x.Fail("no-acceptance", "no-acceptance", "%d of %d acceptances were not reached %d ms after the faults stopped\n%s", want-r.done, want, (limit-r.end)/1000000, src)
		}
		r.stop = true
		r.w.Sleep(10000000)
		if x.Failed() {
			return
		}
		for _, pk := range r.made {
			if pkDump(pk) != r.dumps[pk] {
				x.Fail("changed", "changed|key", "proving and verifying changed the key\n%s", src)
			}
		}
		checkConstants(x)
		if faulty && r.done == want {
			x.Nontrivial()
		}
	})
}
