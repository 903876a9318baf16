package simrt

import (
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/big"
	mrand "math/rand"
	"reflect"
	"sort"
	"time"
	"unsafe"
)

// ---- clock ----

var epoch = time.Date(2024, 2, 29, 23, 59, 58, 0, time.UTC)

// TimeNow is the simulated wall clock (skew jumps are injected by the world).
func TimeNow() time.Time {
	nw, _ := me()
	if nw == nil {
		return epoch
	}
	nw.now += 1000
	return epoch.Add(time.Duration(nw.now + nw.skew))
}

// ClockJump moves the wall clock.
func (nw *World) ClockJump(d int64) {
	nw.skew += d
	nw.Fault("clock_jump")
}

// TimeSince is time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil is time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// TimeSleep is time.Sleep.
func TimeSleep(d time.Duration) {
	nw, _ := need()
	nw.Sleep(int64(d))
}

// TimeAfter is time.After.
func TimeAfter(d time.Duration) *Chan[time.Time] {
	nw, _ := need()
	c := NewChan[time.Time](1)
	nw.After(int64(d), func() { c.trySend(nw, epoch.Add(time.Duration(nw.now))) })
	return c
}

// Timer is the simulated time.Timer.
type Timer struct {
	C  *Chan[time.Time]
	tm *timer
	f  func()
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	nw, _ := need()
	t := &Timer{C: NewChan[time.Time](1)}
	t.tm = nw.After(int64(d), func() { t.C.trySend(nw, epoch.Add(time.Duration(nw.now))) })
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	nw, _ := need()
	t := &Timer{f: f}
	t.tm = nw.After(int64(d), func() { nw.spawn("afterfunc", 0, f) })
	return t
}

// Stop stops the timer.
func (t *Timer) Stop() bool {
	was := !t.tm.off
	t.tm.off = true
	return was
}

// Reset restarts the timer.
func (t *Timer) Reset(d time.Duration) bool {
	nw, _ := need()
	was := t.Stop()
	if t.f != nil {
		t.tm = nw.After(int64(d), func() { nw.spawn("afterfunc", 0, t.f) })
	} else {
		t.tm = nw.After(int64(d), func() { t.C.trySend(nw, epoch.Add(time.Duration(nw.now))) })
	}
	return was
}

// ---- entropy ----

// Entropy is the simulated random device.
type Entropy struct {
	nw      *World
	rng     uint64
	Reads   int
	Bytes   int
	FailAt  int  // fail the n-th read from now on (1 based), 0 = never
	Short   bool // readers may return short counts
	Log     [][]byte
	KeepLog bool
	FailFor int                            // how many reads fail from FailAt on, 0 = all
	Err     error                          // what a failing read returns, nil = ErrEntropy
	Fill    func(owner int, b []byte) bool // delivers special bytes instead of random ones
	OnRead  func(owner int, b []byte, err error)
	// FailOwner, if not nil, makes every read of the owners it names fail.
	FailOwner func(owner int) bool
}

// ErrEntropy is what a failing random device returns.
var ErrEntropy = errors.New("simulated: random device failed")

func newEntropy(nw *World) *Entropy { return &Entropy{nw: nw, rng: 0x1234567} }

// Seed reseeds the device.
func (e *Entropy) Seed(s uint64) { e.rng = mix(s) }

func (e *Entropy) fill(b []byte) {
	for i := range b {
		e.rng += 0x9e3779b97f4a7c15
		b[i] = byte(mix(e.rng) >> 24)
	}
}

// Read is one read from the device.
func (e *Entropy) Read(b []byte) (int, error) {
	owner := 0
	if e.nw.cur != nil {
		owner = e.nw.cur.Owner
	}
	fill := func(b []byte) {
		if e.Fill == nil || !e.Fill(owner, b) {
			e.fill(b)
		}
	}
	e.Reads++
	if e.FailOwner != nil && e.FailOwner(owner) {
		e.nw.Fault("entropy_error")
		return 0, ErrEntropy
	}
	if e.FailAt > 0 && e.Reads >= e.FailAt && (e.FailFor == 0 || e.Reads < e.FailAt+e.FailFor) {
		e.nw.Fault("entropy_error")
		n := 0
		if len(b) > 0 && e.nw.C.F.Chance(1, 2) {
			n = e.nw.C.F.N(len(b))
			fill(b[:n])
		}
		err := e.Err
		if err == nil {
			err = ErrEntropy
		}
		if e.OnRead != nil {
			e.OnRead(owner, b[:n], err)
		}
		return n, err
	}
	n := len(b)
	if e.Short && n > 1 && e.nw.C.F.Chance(1, 2) {
		n = 1 + e.nw.C.F.N(n-1)
		e.nw.Fault("entropy_short_read")
	}
	fill(b[:n])
	e.Bytes += n
	if e.KeepLog {
		e.Log = append(e.Log, append([]byte(nil), b[:n]...))
	}
	if e.OnRead != nil {
		e.OnRead(owner, b[:n], nil)
	}
	return n, nil
}

type devReader struct{}

func (devReader) Read(b []byte) (int, error) {
	nw, _ := me()
	if nw == nil {
		for i := range b {
			b[i] = 7
		}
		return len(b), nil
	}
	nw.syncPoint()
	return nw.Entropy.Read(b)
}

// RandReader stands in for crypto/rand.Reader.
var RandReader io.Reader = devReader{}

// RandRead stands in for crypto/rand.Read, which fills b or, where the source fails, ends the process (go 1.24 on).
func RandRead(b []byte) (int, error) {
	if n, err := io.ReadFull(RandReader, b); err != nil {
		if nw, _ := me(); nw != nil {
			nw.fatal("crypto/rand: failed to read random data")
		}
		return n, err
	}
	return len(b), nil
}

// RandInt stands in for crypto/rand.Int: the real algorithm on the given reader.
func RandInt(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }

// RandPrime stands in for crypto/rand.Prime.
func RandPrime(r io.Reader, bits int) (*big.Int, error) {
	b := make([]byte, (bits+7)/8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	x := new(big.Int).SetBytes(b)
	x.SetBit(x, bits-1, 1).SetBit(x, 0, 1)
	for !x.ProbablyPrime(20) {
		x.Add(x, big.NewInt(2))
	}
	return x, nil
}

type mrandSource struct{}

func (mrandSource) Int63() int64 { return int64(mrandSource{}.Uint64() >> 1) }
func (mrandSource) Seed(int64)   {}
func (mrandSource) Uint64() uint64 {
	nw, _ := me()
	if nw == nil {
		return 4
	}
	nw.Entropy.rng += 0x9e3779b97f4a7c15
	return mix(nw.Entropy.rng)
}

// MRand stands in for math/rand's global generator.
var MRand = mrand.New(mrandSource{})

// ---- disk ----

// Disk is the simulated file system.
type Disk struct {
	nw    *World
	files map[string]*DFile
	gen   int // counts changes
	Reads int
	// OnRead may inject a fault: it returns the content to deliver or an error.
	OnRead func(path string, data []byte) ([]byte, error)
}

// DFile is one file: durable content and content not yet synced.
type DFile struct {
	Durable       []byte
	Cache         []byte
	exists        bool
	durableExists bool
	gen, durGen   int
}

func newDisk(nw *World) *Disk { return &Disk{nw: nw, files: map[string]*DFile{}} }

// Put stores a durable file.
func (d *Disk) Put(path string, data []byte) {
	d.gen++
	if f := d.files[path]; f != nil && f.exists && string(f.Cache) == string(data) && string(f.Durable) == string(data) {
		return
	}
	d.files[path] = &DFile{Durable: append([]byte(nil), data...), Cache: append([]byte(nil), data...), exists: true, durableExists: true, gen: d.gen, durGen: d.gen}
}

// Write replaces the cached content (not durable before Sync).
func (d *Disk) Write(path string, data []byte) {
	f := d.files[path]
	if f == nil {
		f = &DFile{}
		d.files[path] = f
	}
	d.gen++
	f.gen = d.gen
	f.Cache = append([]byte(nil), data...)
	f.exists = true
}

// Sync makes path durable.
func (d *Disk) Sync(path string) {
	if f := d.files[path]; f != nil {
		f.Durable = append([]byte(nil), f.Cache...)
		f.durableExists = true
		f.durGen = f.gen
	}
}

// CrashPath drops what was not durable; torn keeps a prefix of the new bytes.
func (d *Disk) CrashPath(path string, torn func(n int) int) {
	f := d.files[path]
	if f == nil {
		return
	}
	if !f.durableExists {
		if torn != nil {
			k := torn(len(f.Cache) + 1)
			f.Cache = f.Cache[:k]
			f.Durable = append([]byte(nil), f.Cache...)
			f.durableExists = true
			return
		}
		delete(d.files, path)
		return
	}
	f.Cache = append([]byte(nil), f.Durable...)
	f.gen = f.durGen
}

// Del removes a file.
func (d *Disk) Del(path string) { delete(d.files, path) }

// Get returns the current content.
func (d *Disk) Get(path string) ([]byte, bool) {
	f := d.files[path]
	if f == nil || !f.exists {
		return nil, false
	}
	return append([]byte(nil), f.Cache...), true
}

// ReadFile stands in for os.ReadFile / ioutil.ReadFile.
func ReadFile(path string) ([]byte, error) {
	nw, _ := me()
	if nw == nil {
		return nil, &fs.PathError{Op: "open", Path: path, Err: fs.ErrNotExist}
	}
	nw.syncPoint()
	d := nw.Disk
	d.Reads++
	data, ok := d.Get(path)
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: path, Err: fs.ErrNotExist}
	}
	if d.OnRead != nil {
		return d.OnRead(path, data)
	}
	return data, nil
}

// File stands in for *os.File opened for reading.
type File struct {
	name string
	data []byte
	pos  int
	err  error
	w    bool
}

// Open stands in for os.Open.
func Open(path string) (*File, error) {
	nw, _ := me()
	if nw == nil {
		return nil, &fs.PathError{Op: "open", Path: path, Err: fs.ErrNotExist}
	}
	nw.syncPoint()
	data, ok := nw.Disk.Get(path)
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: path, Err: fs.ErrNotExist}
	}
	nw.Disk.Reads++
	f := &File{name: path, data: data}
	if nw.Disk.OnRead != nil {
		f.data, f.err = nw.Disk.OnRead(path, data)
	}
	return f, nil
}

// Read reads; short counts are injected.
func (f *File) Read(b []byte) (int, error) {
	nw, _ := need()
	nw.syncPoint()
	if f.pos >= len(f.data) {
		if f.err != nil {
			return 0, f.err
		}
		return 0, io.EOF
	}
	n := len(f.data) - f.pos
	if n > len(b) {
		n = len(b)
	}
	if n > 1 && nw.C.F.Chance(1, 3) {
		n = 1 + nw.C.F.N(n-1)
		nw.Fault("disk_short_read")
	}
	copy(b, f.data[f.pos:f.pos+n])
	f.pos += n
	return n, nil
}

// Close closes.
func (f *File) Close() error { return nil }

// Name is the path.
func (f *File) Name() string { return f.name }

// ---- stdout ----

// Out counts what was printed; printing never changes a result.
func Out(s string) (int, error) {
	nw, _ := me()
	if nw != nil {
		nw.syncPoint()
		if nw.cfg.Stdout && nw.C.F.Chance(1, 6) {
			nw.Fault("stdout_error")
			return 0, errors.New("simulated: write /dev/stdout: no space left on device")
		}
	}
	return len(s), nil
}

// Println stands in for fmt.Println.
func Println(a ...interface{}) (int, error) { return Out(fmt.Sprintln(a...)) }

// Printf stands in for fmt.Printf.
func Printf(f string, a ...interface{}) (int, error) { return Out(fmt.Sprintf(f, a...)) }

// Print stands in for fmt.Print.
func Print(a ...interface{}) (int, error) { return Out(fmt.Sprint(a...)) }

// Exit stands in for os.Exit.
func Exit(code int) {
	nw, _ := need()
	nw.fatal(fmt.Sprintf("os.Exit(%d)", code))
}

// NumCPU stands in for runtime.NumCPU.
func NumCPU() int { return 4 }

// GOMAXPROCS stands in for runtime.GOMAXPROCS.
func GOMAXPROCS(int) int { return 4 }

// NumGoroutine stands in for runtime.NumGoroutine.
func NumGoroutine() int {
	if nw, _ := me(); nw != nil {
		return len(nw.tasks)
	}
	return 1
}

// Getenv stands in for os.Getenv.
func Getenv(string) string { return "" }

// ---- maps ----

var lastMap unsafe.Pointer

type mapWin struct {
	readers int
	writer  bool
	who     string
}

// access keeps the map's address where the compiler must give it a place of its own: a map that
// lives on a task's stack would change its address, and another's could take it.
func access(p unsafe.Pointer, write bool) {
	nw := w
	lastMap = p
	if nw == nil || nw.dead || nw.cur == nil || len(nw.tasks) < 2 || p == nil {
		return
	}
	win := nw.windows[p]
	if win != nil {
		if win.writer || write {
			kind := "concurrent map read and map write"
			if win.writer && write {
				kind = "concurrent map writes"
			}
			if nw.res.MapRace == "" {
				nw.res.MapRace = fmt.Sprintf("fatal error: %s: %s (near %s) against %s", kind, nw.cur.Name, SiteName(nw.cur.lastYS), win.who)
			}
			nw.fatal(kind)
			return
		}
	}
	if nw.winLeft <= 0 || len(nw.runq) == 0 {
		return
	}
	nw.winLeft--
	if !nw.C.S.Chance(1, 4) {
		return
	}
	if win == nil {
		win = &mapWin{}
		nw.windows[p] = win
	}
	win.who = nw.cur.Name + " (near " + SiteName(nw.cur.lastYS) + ")"
	if write {
		win.writer = true
	} else {
		win.readers++
	}
	nw.res.Preempts++
	nw.yield(nw.cur)
	if write {
		win.writer = false
	} else {
		win.readers--
	}
	if win.readers == 0 && !win.writer {
		delete(nw.windows, p)
	}
}

// MR marks a map read.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false)
	return m
}

// MW marks a map write.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true)
	return m
}

// MapKeys is the order in which a range over m visits it: sorted, then
// permuted by the schedule stream.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	sort.Slice(keys, func(i, j int) bool { return lessAny(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })
	if nw, _ := me(); nw != nil {
		if salt := uint64(nw.C.S.Salt()); salt != 0 {
			for i := len(keys) - 1; i > 0; i-- {
				j := int(mix(salt^uint64(i)*0x5851f42d4c957f2d) % uint64(i+1))
				keys[i], keys[j] = keys[j], keys[i]
			}
			nw.Probe("map_order_permuted")
		}
	}
	return keys
}

func lessAny(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if lessAny(a.Field(i), b.Field(i)) {
				return true
			}
			if lessAny(b.Field(i), a.Field(i)) {
				return false
			}
		}
		return false
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if lessAny(a.Index(i), b.Index(i)) {
				return true
			}
			if lessAny(b.Index(i), a.Index(i)) {
				return false
			}
		}
		return false
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// ZeroKV gives the zero key and value of a map.
func ZeroKV[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// LogFatal stands in for log.Fatal.
func LogFatal(a ...interface{}) { Exit(1) }

// LogFatalf stands in for log.Fatalf.
func LogFatalf(f string, a ...interface{}) { Exit(1) }

// LogPrint stands in for log.Print.
func LogPrint(a ...interface{}) { Out(fmt.Sprint(a...)) }

// LogPrintf stands in for log.Printf.
func LogPrintf(f string, a ...interface{}) { Out(fmt.Sprintf(f, a...)) }

// NewTicker and Tick are bounded: a ticker is a timer re-armed on every fire.
type Ticker struct {
	C   *Chan[time.Time]
	off bool
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	nw, _ := need()
	t := &Ticker{C: NewChan[time.Time](1)}
	n := 0
	var arm func()
	arm = func() {
		nw.After(int64(d), func() {
			n++
			if t.off || n > 100000 {
				return
			}
			t.C.trySendDrop(nw, epoch.Add(time.Duration(nw.now)))
			arm()
		})
	}
	arm()
	return t
}

// Stop stops the ticker.
func (t *Ticker) Stop() { t.off = true }
