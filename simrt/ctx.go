package simrt

import (
	"context"
	"errors"
	"io/fs"
	"math/rand/v2"
	"time"
)

// Context is the simulated context.Context.
type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *Chan[struct{}]
	Err() error
	Value(key any) any
}

// CancelFunc is context.CancelFunc.
type CancelFunc func()

// CancelCauseFunc is context.CancelCauseFunc.
type CancelCauseFunc func(cause error)

type simCtx struct {
	up    Context
	done  *Chan[struct{}]
	err   error
	cause error
	at    time.Time
	timed bool
	k, v  any
	own   bool
	kids  []*simCtx
}

// Background is context.Background, also TODO.
func Background() Context { return &simCtx{} }

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.timed {
		return c.at, true
	}
	if c.up != nil {
		return c.up.Deadline()
	}
	return time.Time{}, false
}

func (c *simCtx) Done() *Chan[struct{}] {
	if c.own {
		return c.done
	}
	if c.up != nil {
		return c.up.Done()
	}
	return nil
}

func (c *simCtx) Err() error {
	if c.own {
		return c.err
	}
	if c.up != nil {
		return c.up.Err()
	}
	return nil
}

func (c *simCtx) Value(k any) any {
	if c.k != nil && c.k == k {
		return c.v
	}
	if c.up != nil {
		return c.up.Value(k)
	}
	return nil
}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if c.cause = cause; cause == nil {
		c.cause = err
	}
	c.done.Close()
	for _, k := range c.kids {
		k.cancel(err, c.cause)
	}
}

func owner(c Context) *simCtx {
	for {
		s, ok := c.(*simCtx)
		if !ok || s == nil {
			return nil
		}
		if s.own {
			return s
		}
		if s.up == nil {
			return nil
		}
		c = s.up
	}
}

func derive(up Context) *simCtx {
	c := &simCtx{up: up, own: true, done: NewChan[struct{}](0)}
	if o := owner(up); o != nil {
		if o.err != nil {
			c.cancel(o.err, o.cause)
		} else {
			o.kids = append(o.kids, c)
		}
	}
	return c
}

// WithCancel is context.WithCancel.
func WithCancel(up Context) (Context, CancelFunc) {
	c := derive(up)
	return c, func() { c.cancel(context.Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(up Context) (Context, CancelCauseFunc) {
	c := derive(up)
	return c, func(e error) { c.cancel(context.Canceled, e) }
}

// CtxCause is context.Cause.
func CtxCause(c Context) error {
	if o := owner(c); o != nil {
		return o.cause
	}
	return c.Err()
}

// WithTimeout is context.WithTimeout.
func WithTimeout(up Context, d time.Duration) (Context, CancelFunc) {
	c := derive(up)
	nw, _ := need()
	c.at, c.timed = epoch.Add(time.Duration(nw.now)+d), true
	var tm *timer
	if c.err == nil {
		tm = nw.After(int64(d), func() {
			nw.spawn("deadline", 0, func() { c.cancel(context.DeadlineExceeded, nil) })
		})
	}
	return c, func() {
		if tm != nil {
			tm.off = true
		}
		c.cancel(context.Canceled, nil)
	}
}

// WithDeadline is context.WithDeadline.
func WithDeadline(up Context, t time.Time) (Context, CancelFunc) {
	return WithTimeout(up, TimeUntil(t))
}

// WithValue is context.WithValue.
func WithValue(up Context, k, v any) Context { return &simCtx{up: up, k: k, v: v} }

// NewLike makes a channel of the type of the given one.
func NewLike[T any](_ *Chan[T], n int) *Chan[T] { return NewChan[T](n) }

// TimeTick is time.Tick.
func TimeTick(d time.Duration) *Chan[time.Time] { return NewTicker(d).C }

// Reset is (*time.Ticker).Reset.
func (t *Ticker) Reset(d time.Duration) {
	t.off = true
	*t = Ticker{C: t.C}
	nw, _ := need()
	me := t
	var arm func()
	n := 0
	arm = func() {
		nw.After(int64(d), func() {
			n++
			if me.off || n > 100000 {
				return
			}
			me.C.trySendDrop(nw, epoch.Add(time.Duration(nw.now)))
			arm()
		})
	}
	arm()
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := &Once{}
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type mrand2 struct{}

func (mrand2) Uint64() uint64 { return mrandSource{}.Uint64() }

// MRand2 stands in for math/rand/v2's global generator.
var MRand2 = rand.New(mrand2{})

// Text stands in for crypto/rand.Text.
func RandText() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	RandRead(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}

// ---- more of the file system ----

type fileInfo struct {
	name string
	size int
	gen  int
}

func (f fileInfo) Name() string       { return f.name }
func (f fileInfo) Size() int64        { return int64(f.size) }
func (f fileInfo) Mode() fs.FileMode  { return 0o644 }
func (f fileInfo) ModTime() time.Time { return epoch.Add(time.Duration(f.gen) * time.Millisecond) }
func (f fileInfo) IsDir() bool        { return false }
func (f fileInfo) Sys() any           { return nil }

// Stat stands in for os.Stat.
func Stat(path string) (fs.FileInfo, error) {
	nw, _ := need()
	nw.syncPoint()
	data, ok := nw.Disk.Get(path)
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: path, Err: fs.ErrNotExist}
	}
	return fileInfo{path, len(data), nw.Disk.files[path].gen}, nil
}

// Stat stands in for (*os.File).Stat.
func (f *File) Stat() (fs.FileInfo, error) {
	gen := 0
	if nw, _ := me(); nw != nil && nw.Disk.files[f.name] != nil {
		gen = nw.Disk.files[f.name].gen
	}
	return fileInfo{f.name, len(f.data), gen}, nil
}

// WriteFile stands in for os.WriteFile.
func WriteFile(path string, b []byte, _ fs.FileMode) error {
	nw, _ := need()
	nw.syncPoint()
	nw.Disk.Write(path, b)
	return nil
}

// Create stands in for os.Create.
func Create(path string) (*File, error) {
	nw, _ := need()
	nw.syncPoint()
	nw.Disk.Write(path, nil)
	return &File{name: path, w: true}, nil
}

// OpenFile stands in for os.OpenFile.
func OpenFile(path string, flag int, _ fs.FileMode) (*File, error) {
	if flag&3 == 0 {
		return Open(path)
	}
	nw, _ := need()
	f := &File{name: path, w: true}
	if data, ok := nw.Disk.Get(path); ok && flag&0x200 == 0 {
		f.data = data
	}
	nw.Disk.Write(path, f.data)
	return f, nil
}

// Remove stands in for os.Remove.
func Remove(path string) error {
	nw, _ := need()
	if _, ok := nw.Disk.Get(path); !ok {
		return &fs.PathError{Op: "remove", Path: path, Err: fs.ErrNotExist}
	}
	delete(nw.Disk.files, path)
	return nil
}

// Write writes to the simulated file, or nowhere for the standard streams.
func (f *File) Write(b []byte) (int, error) {
	if !f.w {
		if f.name == "/dev/stdout" || f.name == "/dev/stderr" {
			return Out(string(b))
		}
		return 0, errors.New("simulated: file not open for writing")
	}
	nw, _ := need()
	nw.syncPoint()
	f.data = append(f.data, b...)
	nw.Disk.Write(f.name, f.data)
	return len(b), nil
}

// WriteString is (*os.File).WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Sync is (*os.File).Sync.
func (f *File) Sync() error {
	if f.w {
		nw, _ := need()
		nw.Disk.Sync(f.name)
	}
	return nil
}

// Stdout and Stderr stand in for the standard streams.
var (
	Stdout = &File{name: "/dev/stdout"}
	Stderr = &File{name: "/dev/stderr"}
)
