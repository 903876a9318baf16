package simrt

// Chan is the simulated channel; a nil *Chan behaves like a nil channel.
type Chan[T any] struct {
	buf    []T
	capn   int
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]
}

type waiter[T any] struct {
	t   *Task
	val T
	ok  bool
	sel *selState
	idx int
}

type selState struct {
	fired bool
	idx   int
}

// NewChan is make(chan T, n).
func NewChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{capn: n}
}

func popw[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.sel != nil {
			if x.sel.fired {
				continue
			}
			x.sel.fired = true
			x.sel.idx = x.idx
		}
		return x
	}
	return nil
}

func hasw[T any](q []*waiter[T]) bool {
	for _, x := range q {
		if x.sel == nil || !x.sel.fired {
			return true
		}
	}
	return false
}

func (c *Chan[T]) trySend(nw *World, v T) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if r := popw(&c.recvq); r != nil {
		r.val, r.ok = v, true
		nw.ready(r.t)
		return true
	}
	if len(c.buf) < c.capn {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *Chan[T]) tryRecv(nw *World) (v T, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		var zero T
		c.buf[0] = zero
		c.buf = c.buf[1:]
		if s := popw(&c.sendq); s != nil {
			c.buf = append(c.buf, s.val)
			s.ok = true
			nw.ready(s.t)
		}
		return v, true, true
	}
	if s := popw(&c.sendq); s != nil {
		s.ok = true
		nw.ready(s.t)
		return s.val, true, true
	}
	if c.closed {
		return v, false, true
	}
	return v, false, false
}

// Send is c <- v.
func (c *Chan[T]) Send(v T) {
	nw, t := need()
	if nw == nil {
		return
	}
	nw.syncPoint()
	if c == nil {
		nw.block(t, "send on nil channel")
		return
	}
	if c.trySend(nw, v) {
		return
	}
	x := &waiter[T]{t: t, val: v}
	c.sendq = append(c.sendq, x)
	nw.block(t, "chan send near "+SiteName(t.lastYS))
	if !x.ok {
		panic("send on closed channel")
	}
}

// Recv2 is v, ok := <-c.
func (c *Chan[T]) Recv2() (v T, ok bool) {
	nw, t := need()
	if nw == nil {
		return
	}
	nw.syncPoint()
	if c == nil {
		nw.block(t, "receive on nil channel")
		return
	}
	if v, ok, done := c.tryRecv(nw); done {
		return v, ok
	}
	x := &waiter[T]{t: t}
	c.recvq = append(c.recvq, x)
	nw.block(t, "chan receive near "+SiteName(t.lastYS))
	return x.val, x.ok
}

// Recv is <-c.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Close is close(c).
func (c *Chan[T]) Close() {
	nw, _ := need()
	if nw == nil {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		r := popw(&c.recvq)
		if r == nil {
			break
		}
		r.ok = false
		nw.ready(r.t)
	}
	for {
		s := popw(&c.sendq)
		if s == nil {
			break
		}
		s.ok = false
		nw.ready(s.t)
	}
	nw.syncPoint()
}

// Len is len(c).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Cap is cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.capn
}

// SelCase is one case of a select.
type SelCase interface {
	ready() bool
	exec(nw *World)
	enqueue(t *Task, s *selState, idx int)
	finish()
}

// RCase is a receive case.
type RCase[T any] struct {
	c  *Chan[T]
	V  T
	OK bool
	x  *waiter[T]
}

// RecvCase builds a receive case.
func (c *Chan[T]) RecvCase() *RCase[T] { return &RCase[T]{c: c} }

// Zero is the zero element.
func (c *Chan[T]) Zero() (v T) { return v }

func (r *RCase[T]) ready() bool {
	return r.c != nil && (len(r.c.buf) > 0 || hasw(r.c.sendq) || r.c.closed)
}
func (r *RCase[T]) exec(nw *World) { r.V, r.OK, _ = r.c.tryRecv(nw) }
func (r *RCase[T]) enqueue(t *Task, s *selState, idx int) {
	if r.c == nil {
		return
	}
	r.x = &waiter[T]{t: t, sel: s, idx: idx}
	r.c.recvq = append(r.c.recvq, r.x)
}
func (r *RCase[T]) finish() { r.V, r.OK = r.x.val, r.x.ok }

// SCase is a send case.
type SCase[T any] struct {
	c *Chan[T]
	v T
	x *waiter[T]
}

// SendCase builds a send case.
func (c *Chan[T]) SendCase(v T) *SCase[T] { return &SCase[T]{c: c, v: v} }

func (s *SCase[T]) ready() bool {
	return s.c != nil && (s.c.closed || hasw(s.c.recvq) || len(s.c.buf) < s.c.capn)
}
func (s *SCase[T]) exec(nw *World) { s.c.trySend(nw, s.v) }
func (s *SCase[T]) enqueue(t *Task, st *selState, idx int) {
	if s.c == nil {
		return
	}
	s.x = &waiter[T]{t: t, sel: st, idx: idx, val: s.v}
	s.c.sendq = append(s.c.sendq, s.x)
}
func (s *SCase[T]) finish() {
	if !s.x.ok {
		panic("send on closed channel")
	}
}

// Select runs a select statement and returns the chosen case, -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	nw, t := need()
	if nw == nil {
		return -1
	}
	nw.syncPoint()
	var rdy []int
	for i, c := range cases {
		if c.ready() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[0]
		if len(rdy) > 1 {
			i = rdy[nw.C.S.N(len(rdy))]
			nw.Event("select %v", i)
		}
		cases[i].exec(nw)
		return i
	}
	if hasDefault {
		return -1
	}
	s := &selState{}
	for i, c := range cases {
		c.enqueue(t, s, i)
	}
	nw.block(t, "select near "+SiteName(t.lastYS))
	cases[s.idx].finish()
	return s.idx
}

func (c *Chan[T]) trySendDrop(nw *World, v T) {
	if !c.closed && (hasw(c.recvq) || len(c.buf) < c.capn) {
		c.trySend(nw, v)
	}
}

// Offer delivers v if there is room or a receiver, from a task or a timer.
func (c *Chan[T]) Offer(v T) { c.trySendDrop(w, v) }
