package main

import (
	"fmt"

	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

// Msg travels over the simulated network as bytes.
type Msg struct {
	From, To int
	Kind     string
	ID       int
	Body     []byte
	Damaged  bool
}

// NetCfg says which faults the network has and until when.
type NetCfg struct {
	Loss, Dup, Late, Damage int   // per mille
	FaultsEnd               int64 // simulated time after which the network is perfect
	Mutate                  func(c *simrt.Choices, m *Msg)
}

// Net is the simulated network; every node has a mailbox that dies with it.
type Net struct {
	w   *simrt.World
	cfg NetCfg
	box []*simrt.Chan[Msg]
	cut map[[2]int]int64 // partitioned until
	log []string
}

func newNet(nodes int, cfg NetCfg) *Net {
	n := &Net{w: simrt.Cur(), cfg: cfg, box: make([]*simrt.Chan[Msg], nodes), cut: map[[2]int]int64{}}
	return n
}

// Up gives node i a new, empty mailbox.
func (n *Net) Up(i int) { n.box[i] = simrt.NewChan[Msg](4096) }

// Down makes node i lose what is in its mailbox.
func (n *Net) Down(i int) { n.box[i] = nil }

// Partition separates a and b until the given time.
func (n *Net) Partition(a, b int, until int64) {
	if a > b {
		a, b = b, a
	}
	n.w.Fault("partition")
	n.cut[[2]int{a, b}] = until
}

// Send hands m to the network.
func (n *Net) Send(m Msg) {
	w, f := n.w, n.w.C.F
	m.Body = append([]byte(nil), m.Body...)
	copies := 1
	if w.Now() < n.cfg.FaultsEnd {
		a, b := m.From, m.To
		if a > b {
			a, b = b, a
		}
		if w.Now() < n.cut[[2]int{a, b}] {
			w.Fault("message-cut-by-partition")
			return
		}
		if n.cfg.Loss > 0 && f.Chance(n.cfg.Loss, 1000) {
			w.Fault("message-lost")
			return
		}
		if n.cfg.Dup > 0 && f.Chance(n.cfg.Dup, 1000) {
			w.Fault("message-duplicated")
			copies = 2
		}
	}
	for k := 0; k < copies; k++ {
		d := int64(1000 + 100*f.N(8))
		c := m
		if w.Now() < n.cfg.FaultsEnd {
			if n.cfg.Late > 0 && f.Chance(n.cfg.Late, 1000) {
				w.Fault("message-delayed")
				d += int64(f.N(200)) * 1000
			}
			if n.cfg.Damage > 0 && f.Chance(n.cfg.Damage, 1000) {
				w.Fault("message-damaged")
				c.Damaged = true
				c.Body = append([]byte(nil), m.Body...)
				n.cfg.Mutate(w.C, &c)
			}
		}
		to := c.To
		w.After(d, func() {
			if n.box[to] != nil {
				n.box[to].Offer(c)
			}
		})
	}
}

// Recv waits for a message to node i, at most d nanoseconds of simulated time.
func (n *Net) Recv(i int, d int64) (m Msg, ok bool) {
	b := n.box[i]
	if b == nil {
		panic(fmt.Sprintf("node %d is down", i))
	}
	rc := b.RecvCase()
	if d <= 0 {
		d = 1
	}
	t := simrt.NewTimer(timeD(d))
	tc := t.C.RecvCase()
	switch simrt.Select(false, rc, tc) {
	case 0:
		t.Stop()
		return rc.V, rc.OK
	}
	return Msg{}, false
}
