package zzsim

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Hidden is the state of the process's hidden randomness.
type Hidden struct {
	Canonical bool   `json:"canonical,omitempty"` // sorted map order, pools always hit, clock at zero
	MapSeed   uint64 `json:"mapSeed,omitempty"`
	PoolMiss  int    `json:"poolMiss,omitempty"` // percent of pool Gets that miss
	PoolSeed  uint64 `json:"poolSeed,omitempty"`
	Clock     int64  `json:"clock,omitempty"`     // start, seconds
	ClockRate int64  `json:"clockRate,omitempty"` // nanoseconds per step
	RandSeed  uint64 `json:"randSeed,omitempty"`
}

// The seams whose use is counted.
const (
	seamMap = iota
	seamClock
	seamSleep
	seamRand
	seamLockWait
	seamPoolGet
	seamPoolMiss
	seamEnv
	seamSelect
	nSeams
)

var seamNames = [nSeams]string{"map-order", "clock", "sleep", "rand", "lock-wait", "pool-get", "pool-miss", "environment", "select"}
var seamCount [nSeams]int

// Fired returns how often each seam was used.
func Fired() map[string]int {
	m := map[string]int{}
	for i, n := range seamCount {
		if n > 0 {
			m[seamNames[i]] = n
		}
	}
	return m
}

var (
	hidden  = Hidden{Canonical: true}
	maprng  uint64
	poolrng uint64
	jump    int64
	simrand *rand.Rand
)

// Set-up of the process: what package initialisers meet. Reference processes
// have the canonical one.
func init() {
	if v, err := strconv.ParseUint(os.Getenv("ZZSIM_INIT"), 10, 64); err == nil && v != 0 {
		s := v
		SetHidden(Hidden{MapSeed: mix(&s), PoolSeed: mix(&s), RandSeed: mix(&s), Clock: int64(mix(&s) >> 32), ClockRate: 1000, PoolMiss: int(v%3) * 30})
	}
}

// InitSeed is the set-up of this process.
func InitSeed() uint64 {
	v, _ := strconv.ParseUint(os.Getenv("ZZSIM_INIT"), 10, 64)
	return v
}

// SetHidden installs the hidden randomness of the following runs.
//
//go:norace
func SetHidden(h Hidden) {
	hidden = h
	maprng, poolrng, jump = h.MapSeed, h.PoolSeed, 0
	simrand = nil
}

//go:norace
func mix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func fired(k int) {
	seamCount[k]++
}

// Entry is one map element met by a range loop.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Get reads the element at the time the loop reaches it.
func (e Entry[K, V]) Get() (V, bool) { v, ok := e.m[e.K]; return v, ok }

// MapEntries is the order in which a range over m meets its elements.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	es := make([]Entry[K, V], 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{k, m})
	}
	less := func(a, b K) bool {
		switch x := any(a).(type) {
		case string:
			return x < any(b).(string)
		case int:
			return x < any(b).(int)
		}
		return fmt.Sprintf("%v", a) < fmt.Sprintf("%v", b)
	}
	sort.SliceStable(es, func(i, j int) bool { return less(es[i].K, es[j].K) })
	shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	return es
}

//go:norace
func shuffle(n int, swap func(i, j int)) {
	fired(seamMap)
	if hidden.Canonical {
		return
	}
	for i := n - 1; i > 0; i-- {
		swap(i, int(mix(&maprng)%uint64(i+1)))
	}
}

// Now, Since, Until, Sleep stand in for those of package time.
//
//go:norace
func Now() time.Time {
	fired(seamClock)
	if hidden.Canonical {
		return time.Unix(0, jump)
	}
	return time.Unix(hidden.Clock, int64(total+steps)*hidden.ClockRate+jump)
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

//go:norace
func Sleep(d time.Duration) {
	fired(seamSleep)
	jump += int64(d)
	Yield()
}

type rsrc struct{ s uint64 }

//go:norace
func (r *rsrc) Uint64() uint64 { return mix(&r.s) }

//go:norace
func (r *rsrc) Int63() int64 { return int64(mix(&r.s) >> 1) }

//go:norace
func (r *rsrc) Seed(s int64) { r.s = uint64(s) }

// Rand stands in for the global source of math/rand.
//
//go:norace
func Rand() *rand.Rand {
	fired(seamRand)
	if simrand == nil {
		simrand = rand.New(&rsrc{hidden.RandSeed})
	}
	return simrand
}

// RandV2 stands in for the global source of math/rand/v2.
func RandV2() *randv2.Rand { return randv2.New(&rsrc{Rand().Uint64()}) }

// Hash seeds. Package maphash can't be seeded; the simulated hash is an
// FNV-1a under a simulated seed.
type HashSeed struct{ s uint64 }

func MakeSeed() HashSeed { return HashSeed{Rand().Uint64()} }
func HashString(seed HashSeed, s string) uint64 {
	h := seed.s ^ 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return mix(&h)
}
func HashBytes(seed HashSeed, b []byte) uint64 { return HashString(seed, string(b)) }

var _ maphash.Seed

// Mutex stands in for sync.Mutex.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	Yield()
	for !m.mu.TryLock() {
		firedLock()
		block(m)
	}
}
func (m *Mutex) TryLock() bool { Yield(); return m.mu.TryLock() }
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	wake(m)
	Yield()
}

//go:norace
func firedLock() { fired(seamLockWait) }

// RWMutex stands in for sync.RWMutex: a writer that waits keeps new readers
// out.
type RWMutex struct {
	mu      sync.RWMutex
	writers int // waiting
}

//go:norace
func (m *RWMutex) wait(d int) { m.writers += d }

//go:norace
func (m *RWMutex) awaited() bool { return m.writers > 0 }

func (m *RWMutex) Lock() {
	Yield()
	m.wait(1)
	for !m.mu.TryLock() {
		firedLock()
		block(m)
	}
	m.wait(-1)
}
func (m *RWMutex) RLock() {
	Yield()
	for m.awaited() || !m.mu.TryRLock() {
		firedLock()
		block(m)
	}
}
func (m *RWMutex) TryLock() bool  { Yield(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { Yield(); return !m.awaited() && m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock(); wake(m); Yield() }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock(); wake(m); Yield() }
func (m *RWMutex) RLocker() sync.Locker {
	return rlocker{m}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Once stands in for sync.Once. Waiting for a stalled thread in its Do is not
// held against the code: the work is done once only.
type Once struct {
	done atomic.Uint32
	m    sync.Mutex
}

func (o *Once) Do(f func()) {
	Yield()
	if o.done.Load() != 0 {
		return
	}
	for !o.m.TryLock() {
		firedLock()
		block(o)
	}
	defer func() {
		o.m.Unlock()
		wake(o)
	}()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	n atomic.Int64
}

func (w *WaitGroup) Add(d int) {
	n := w.n.Add(int64(d))
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n == 0 {
		wake(w)
	}
	Yield()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	Yield()
	for w.n.Load() > 0 {
		block(w)
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Cond stands in for sync.Cond.
type Cond struct {
	L     sync.Locker
	queue []*atomic.Bool
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	var w atomic.Bool
	c.push(&w)
	c.L.Unlock()
	for !w.Load() {
		block(&w)
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) push(w *atomic.Bool) { c.queue = append(c.queue, w) }

//go:norace
func (c *Cond) Signal() {
	if len(c.queue) > 0 {
		w := c.queue[0]
		c.queue = c.queue[1:]
		w.Store(true)
		wake(w)
	}
	Yield()
}

//go:norace
func (c *Cond) Broadcast() {
	for _, w := range c.queue {
		w.Store(true)
		wake(w)
	}
	c.queue = nil
	Yield()
}

// Pool stands in for sync.Pool: a stack that the simulator may lose items
// from at any time.
type Pool struct {
	New   func() any
	n     int
	items [32]poolItem
}

type poolItem struct {
	v    any
	sync *atomic.Uint32
}

func (p *Pool) Get() any {
	Yield()
	it := p.take()
	if it.sync != nil {
		it.sync.Load() // the edge from Put to Get
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) take() poolItem {
	fired(seamPoolGet)
	if p.n == 0 {
		return poolItem{}
	}
	i := p.n - 1
	if !hidden.Canonical {
		r := mix(&poolrng)
		if int(r%100) < hidden.PoolMiss {
			fired(seamPoolMiss)
			return poolItem{}
		}
		if r%7 == 0 {
			i = int((r >> 32) % uint64(p.n))
		}
	}
	it := p.items[i]
	// element by element: bulk copies would be seen by the race detector
	for ; i < p.n-1; i++ {
		p.items[i] = p.items[i+1]
	}
	p.n--
	p.items[p.n] = poolItem{}
	return it
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	s := new(atomic.Uint32)
	s.Store(1)
	p.put(poolItem{v, s})
	Yield()
}

//go:norace
func (p *Pool) put(it poolItem) {
	if p.n < len(p.items) {
		p.items[p.n] = it
		p.n++
	}
}

// Scans of the input that allocate nothing still take time.

func scanned(i, n int) {
	if i < 0 {
		i = n
	}
	Charge(i / 8)
}

func StringsIndex(s, sub string) int { i := strings.Index(s, sub); scanned(i, len(s)); return i }
func StringsIndexByte(s string, c byte) int {
	i := strings.IndexByte(s, c)
	scanned(i, len(s))
	return i
}
func StringsIndexRune(s string, c rune) int {
	i := strings.IndexRune(s, c)
	scanned(i, len(s))
	return i
}
func StringsIndexAny(s, c string) int           { i := strings.IndexAny(s, c); scanned(i, len(s)); return i }
func StringsContains(s, sub string) bool        { return StringsIndex(s, sub) >= 0 }
func StringsContainsRune(s string, r rune) bool { return StringsIndexRune(s, r) >= 0 }
func StringsContainsAny(s, c string) bool       { return StringsIndexAny(s, c) >= 0 }
func StringsCount(s, sub string) int            { scanned(-1, len(s)); return strings.Count(s, sub) }
func StringsIndexFunc(s string, f func(rune) bool) int {
	i := strings.IndexFunc(s, f)
	scanned(i, len(s))
	return i
}
func last(i, n int) {
	if i < 0 {
		i = 0
	}
	Charge((n - i) / 8)
}
func StringsLastIndex(s, sub string) int { i := strings.LastIndex(s, sub); last(i, len(s)); return i }
func StringsLastIndexByte(s string, c byte) int {
	i := strings.LastIndexByte(s, c)
	last(i, len(s))
	return i
}
func StringsLastIndexAny(s, c string) int { i := strings.LastIndexAny(s, c); last(i, len(s)); return i }
func StringsLastIndexFunc(s string, f func(rune) bool) int {
	i := strings.LastIndexFunc(s, f)
	last(i, len(s))
	return i
}

// StringsCut and the following are scans, too.
func StringsCut(s, sep string) (before, after string, found bool) {
	before, after, found = strings.Cut(s, sep)
	scanned(len(before), 0)
	return
}
func BytesIndex(s, sub []byte) int { i := bytes.Index(s, sub); scanned(i, len(s)); return i }
func BytesIndexByte(s []byte, c byte) int {
	i := bytes.IndexByte(s, c)
	scanned(i, len(s))
	return i
}
func BytesContains(s, sub []byte) bool { return BytesIndex(s, sub) >= 0 }

// Scan is put around an argument that a function goes through.
func Scan[S ~string](s S) S {
	Charge(len(s) / 8)
	return s
}

// ScanSlice is Scan for slices.
func ScanSlice[S ~[]E, E any](s S) S {
	Charge(len(s) / 8)
	return s
}
