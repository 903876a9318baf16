// Package simrt is the simulator the instrumented copy of the repository runs
// under: one task runs at a time, and every choice (which task, where it is
// preempted, which fault fires, which input is generated) comes from the
// recorded choice streams of one run.
package simrt

// Stream is one recorded sequence of choices. Value 0 is always the simplest
// choice (first runnable task, no preemption, no fault, smallest input), so a
// replay that runs out of recorded values continues in the simplest way, and
// minimisation can lower or drop values.
type Stream struct {
	fixed  []int64
	replay bool
	pos    int
	rng    uint64
	Rec    []int64
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (s *Stream) raw() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	return mix(s.rng)
}

// next records and returns gen() when generating, the recorded value (brought
// into [0,n)) when replaying.
func (s *Stream) next(n int64, gen func() int64) int64 {
	var v int64
	if s.replay {
		if s.pos < len(s.fixed) {
			v = s.fixed[s.pos]
			s.pos++
		}
		if v < 0 {
			v = 0
		}
		if v >= n {
			v = v % n
		}
	} else {
		v = gen()
	}
	s.Rec = append(s.Rec, v)
	return v
}

// N returns a value in [0,n).
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.next(int64(n), func() int64 { return int64(s.raw() % uint64(n)) }))
}

// Chance is true with probability num/den.
func (s *Stream) Chance(num, den int) bool {
	return s.next(2, func() int64 {
		if int(s.raw()%uint64(den)) < num {
			return 1
		}
		return 0
	}) == 1
}

// Pick draws an index with the given weights.
func (s *Stream) Pick(weights ...int) int {
	tot := 0
	for _, w := range weights {
		tot += w
	}
	return int(s.next(int64(len(weights)), func() int64 {
		x := int(s.raw() % uint64(tot))
		for i, w := range weights {
			if x < w {
				return int64(i)
			}
			x -= w
		}
		return 0
	}))
}

// Salt returns a 31 bit value.
func (s *Stream) Salt() int64 {
	return s.next(1<<31, func() int64 { return int64(s.raw() >> 33) })
}

// Bytes fills b; an all-simplest replay gives zeros.
func (s *Stream) Bytes(b []byte) {
	for i := range b {
		b[i] = byte(s.N(256))
	}
}

// Choices are the streams of one run: workload, schedule, environment faults.
type Choices struct{ W, S, F *Stream }

// NewChoices derives the three streams from one seed.
func NewChoices(seed uint64) *Choices {
	mk := func(k uint64) *Stream { return &Stream{rng: mix(seed ^ mix(k))} }
	return &Choices{W: mk(1), S: mk(2), F: mk(3)}
}

// ReplayChoices replays recorded streams.
func ReplayChoices(w, s, f []int64) *Choices {
	mk := func(v []int64) *Stream { return &Stream{fixed: v, replay: true} }
	return &Choices{W: mk(w), S: mk(s), F: mk(f)}
}
