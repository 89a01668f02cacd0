package zzsim

import (
	"context"
	"sync/atomic"
	"time"
	"unsafe"
)

// Channels. Buffered ones are the real thing, used without ever blocking in
// it; two sides of an unbuffered one meet through offers. Every thread that
// waits for a channel waits on chanOn and tries again when some channel
// changed.

type chanWait struct{ _ byte }

var chanOn = new(chanWait)

// token is one blocked operation, of one or more cases.
type token struct {
	fired bool
	i     int
}

// offer is one case of a blocked operation on an unbuffered channel.
type offer struct {
	next *offer
	key  unsafe.Pointer
	send bool
	v    any
	tok  *token
	i    int
	meet *atomic.Uint32 // the edges between the two sides
}

var offers *offer

// Case is a case of a select.
type Case interface {
	try() bool
	bind(o *offer)
	got(v any)
}

type SendCase[T any] struct {
	c chan<- T
	v T
}

type RecvCase[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

func OnSend[T any](c chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{c, v} }
}

func OnRecv[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{c: c} }

func (s *SendCase[T]) try() bool {
	if s.c == nil {
		return false
	}
	select {
	case s.c <- s.v:
		return true
	default:
	}
	if cap(s.c) > 0 {
		return false
	}
	if o := match(*(*unsafe.Pointer)(unsafe.Pointer(&s.c)), false); o != nil {
		o.set(s.v)
		o.edge().Add(1)
		return true
	}
	return false
}

func (s *RecvCase[T]) try() bool {
	if s.c == nil {
		return false
	}
	select {
	case s.V, s.OK = <-s.c:
		return true
	default:
	}
	if cap(s.c) > 0 {
		return false
	}
	if o := match(*(*unsafe.Pointer)(unsafe.Pointer(&s.c)), true); o != nil {
		o.edge().Add(1)
		s.got(o.val())
		return true
	}
	return false
}

//go:norace
func newToken() *token { return &token{} }

//go:norace
func newOffer(t *token, i int) *offer { return &offer{tok: t, i: i, meet: new(atomic.Uint32)} }

//go:norace
func (o *offer) edge() *atomic.Uint32 { return o.meet }

//go:norace
func (o *offer) set(v any) { o.v = v }

//go:norace
func (o *offer) val() any { return o.v }

func (s *SendCase[T]) got(any) {}
func (s *RecvCase[T]) got(v any) {
	s.V, _ = v.(T)
	s.OK = true
}

func (s *SendCase[T]) bind(o *offer) {
	if cap(s.c) == 0 && s.c != nil {
		place(o, *(*unsafe.Pointer)(unsafe.Pointer(&s.c)), true, s.v)
	}
}

func (s *RecvCase[T]) bind(o *offer) {
	if cap(s.c) == 0 && s.c != nil {
		place(o, *(*unsafe.Pointer)(unsafe.Pointer(&s.c)), false, nil)
	}
}

//go:norace
func place(o *offer, key unsafe.Pointer, send bool, v any) {
	o.key, o.send, o.v = key, send, v
	p := &offers
	for *p != nil {
		p = &(*p).next
	}
	*p = o
}

// match finds the first offer of the other side and takes it.
//
//go:norace
func match(key unsafe.Pointer, send bool) *offer {
	for o := offers; o != nil; o = o.next {
		if o.key == key && o.send == send && !o.tok.fired {
			o.tok.fired, o.tok.i = true, o.i
			return o
		}
	}
	return nil
}

//go:norace
func withdraw(t *token) {
	for p := &offers; *p != nil; {
		if (*p).tok == t {
			*p = (*p).next
		} else {
			p = &(*p).next
		}
	}
}

//go:norace
func (t *token) which() int {
	if t.fired {
		return t.i
	}
	return -1
}

// choose says which case to try first.
//
//go:norace
func choose(n int) int {
	if n < 2 {
		return 0
	}
	fired(seamSelect)
	if hidden.Canonical {
		return 0
	}
	return int(mix(&maprng) % uint64(n))
}

// alone says that no other thread could run.
//
//go:norace
func alone() bool {
	for i := 0; i < nthr; i++ {
		if threads[i] != cur && (threads[i].state == stRun || threads[i].state == stStalled) {
			return false
		}
	}
	return active
}

// Select is a select statement: the case it takes, or -1 for the default.
func Select(def bool, cs ...Case) int {
	Yield()
	for tries := 0; ; {
		at := choose(len(cs))
		for k := range cs {
			if i := (k + at) % len(cs); cs[i].try() {
				wake(chanOn)
				Yield()
				return i
			}
		}
		if def {
			return -1
		}
		t := newToken()
		os := make([]*offer, len(cs))
		for i, c := range cs {
			os[i] = newOffer(t, i)
			os[i].edge().Store(1)
			c.bind(os[i])
		}
		firedLock()
		if tries < 100 && alone() {
			// perhaps something outside the simulation is to come
			tries++
			time.Sleep(time.Millisecond)
		} else {
			block(chanOn)
		}
		withdraw(t)
		if i := t.which(); i >= 0 {
			os[i].edge().Load()
			cs[i].got(os[i].val())
			return i
		}
	}
}

func SendTo[T any](c chan<- T) func(v T) {
	return func(v T) { Select(false, &SendCase[T]{c, v}) }
}

func Recv[T any](c <-chan T) T {
	s := RecvCase[T]{c: c}
	Select(false, &s)
	return s.V
}

func Recv2[T any](c <-chan T) (T, bool) {
	s := RecvCase[T]{c: c}
	Select(false, &s)
	return s.V, s.OK
}

func Close[T any](c chan<- T) {
	close(c)
	wake(chanOn)
	Yield()
}

// Ranger is a range over a channel.
type Ranger[T any] struct{ c <-chan T }

func Range[T any](c <-chan T) (Ranger[T], T) {
	var v T
	return Ranger[T]{c}, v
}

func (r Ranger[T]) Next(v *T) bool {
	x, ok := Recv2(r.c)
	if ok {
		*v = x
	}
	return ok
}

// After stands in for time.After: the time comes when the scheduler likes.
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	Go(func() {
		Sleep(d)
		SendTo[time.Time](c)(Now())
	})
	return c
}

// Timer stands in for time.Timer and time.Ticker; it goes off when the
// scheduler likes.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	n int // of the settings
	p bool
}

type Ticker = Timer

//go:norace
func (t *Timer) set(pending bool) (n int, was bool) {
	was, t.p = t.p, pending
	t.n++
	return t.n, was
}

//go:norace
func (t *Timer) due(n int, last bool) bool {
	if t.n != n || !t.p {
		return false
	}
	t.p = !last
	return true
}

func (t *Timer) start(d time.Duration, times int) bool {
	n, was := t.set(true)
	Go(func() {
		for i := 1; i <= times; i++ {
			Yield()
			if !t.due(n, false) {
				return
			}
			Sleep(d)
			if !t.due(n, i == times) {
				return
			}
			if t.f != nil {
				t.f()
				continue
			}
			select {
			case t.c <- Now():
			default:
			}
			wake(chanOn)
			Yield()
		}
	})
	return was
}

func (t *Timer) Stop() bool {
	Yield()
	_, was := t.set(false)
	return was
}

func (t *Timer) Reset(d time.Duration) bool { Yield(); return t.start(d, 1) }

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d, 1)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d, 1)
	return t
}

// NewTicker ticks a few times only, so that runs end.
func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d, 8)
	return t
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

type deadline struct {
	context.Context
	at time.Time
}

func (d *deadline) Deadline() (time.Time, bool) { return d.at, true }

func (d *deadline) Err() error {
	if err := d.Context.Err(); err != nil && context.Cause(d.Context) != context.DeadlineExceeded {
		return err
	}
	if d.Context.Err() != nil || !Now().Before(d.at) {
		return context.DeadlineExceeded
	}
	return nil
}

// WithCancel and the following stand in for functions of package context.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c, cancel := context.WithCancel(parent)
	return c, func() {
		cancel()
		wake(chanOn)
		Yield()
	}
}

func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	c, cancel := context.WithCancelCause(parent)
	t := AfterFunc(Until(at), func() {
		cancel(context.DeadlineExceeded)
		wake(chanOn)
		Yield()
	})
	return &deadline{c, at}, func() {
		t.Stop()
		cancel(nil)
		wake(chanOn)
		Yield()
	}
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}
