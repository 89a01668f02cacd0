package zzsim

import (
	"fmt"
	"io"
	"iter"
	"math/big"
	"os"
	"runtime"
	"strings"
	"sync"
)

// envHash is a hidden property of the process or its machine.
//
//go:norace
func envHash(s string) uint64 {
	fired(seamEnv)
	if hidden.Canonical {
		return 0
	}
	h := hidden.RandSeed ^ 0x9e3779b97f4a7c15
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return mix(&h) | 1
}

// LookupEnv and the following stand in for functions of package os and
// runtime that say something of the process's surroundings.
func LookupEnv(name string) (string, bool) {
	h := envHash(name)
	switch h >> 8 % 8 {
	case 1:
		return "", true
	case 2:
		return "1", true
	case 3:
		return "0", true
	case 4:
		return "true", true
	case 5:
		return fmt.Sprintf("%x", h), true
	case 6:
		return fmt.Sprint(h % 5000), true
	}
	return "", false
}
func Getenv(name string) string { v, _ := LookupEnv(name); return v }
func Environ() []string {
	h := envHash("")
	if h == 0 {
		return nil
	}
	return []string{"PATH=/bin", fmt.Sprintf("SEED=%x", h)}[:h>>20%3]
}
func ExpandEnv(s string) string { return os.Expand(s, Getenv) }
func Getpid() int               { return 1 + int(envHash("pid")%30000) }
func Hostname() (string, error) { return fmt.Sprintf("host%x", envHash("host")), nil }
func Getwd() (string, error)    { return "/" + strings.Repeat("d/", int(envHash("wd")%4)), nil }
func NumCPU() int               { return 1 + int(envHash("cpu")>>8%128) }
func MaxProcs(n int) int        { return NumCPU() }

// ReadMemStats is the statistics of a process that may have been at work for long.
func ReadMemStats(m *runtime.MemStats) {
	runtime.ReadMemStats(m)
	h := envHash("heap")
	m.HeapAlloc += h % (1 << 34)
	m.Alloc, m.HeapInuse = m.HeapAlloc, m.HeapInuse+h%(1<<34)
	m.HeapObjects += h % (1 << 26)
	m.NumGC += uint32(h % 10000)
	m.Mallocs += h % (1 << 40)
	m.TotalAlloc += h % (1 << 44)
}

// MapsKeys, MapsValues and MapsAll stand in for those of package maps.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range MapEntries(m) {
			if _, ok := e.Get(); ok && !yield(e.K) {
				return
			}
		}
	}
}
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range MapEntries(m) {
			if v, ok := e.Get(); ok && !yield(v) {
				return
			}
		}
	}
}
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range MapEntries(m) {
			if v, ok := e.Get(); ok && !yield(e.K, v) {
				return
			}
		}
	}
}

// Map stands in for sync.Map: the order of Range is the simulator's.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { Yield(); m.m.Store(k, v); Yield() }
func (m *Map) LoadOrStore(k, v any) (any, bool) { Yield(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { Yield(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { Yield(); m.m.Delete(k); Yield() }
func (m *Map) Swap(k, v any) (any, bool)        { Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool  { Yield(); return m.m.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, a any) bool   { Yield(); return m.m.CompareAndDelete(k, a) }
func (m *Map) Clear()                           { Yield(); m.m.Clear(); Yield() }
func (m *Map) Range(f func(k, v any) bool) {
	Yield()
	all := map[any]any{}
	m.m.Range(func(k, v any) bool { all[k] = nil; return true })
	for _, e := range MapEntries(all) {
		if v, ok := m.m.Load(e.K); ok && !f(e.K, v) {
			return
		}
		Yield()
	}
}

// Hash stands in for maphash.Hash.
type Hash struct {
	seed   HashSeed
	seeded bool
	buf    []byte
}

func (h *Hash) Seed() HashSeed {
	if !h.seeded {
		h.seed, h.seeded = MakeSeed(), true
	}
	return h.seed
}
func (h *Hash) SetSeed(s HashSeed) { h.seed, h.seeded, h.buf = s, true, nil }
func (h *Hash) Reset()             { h.Seed(); h.buf = nil }
func (h *Hash) Write(b []byte) (int, error) {
	h.Seed()
	h.buf = append(h.buf, b...)
	return len(b), nil
}
func (h *Hash) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *Hash) WriteByte(c byte) error            { h.buf = append(h.buf, c); return nil }
func (h *Hash) Size() int                         { return 8 }
func (h *Hash) BlockSize() int                    { return 128 }
func (h *Hash) Sum64() uint64                     { return HashBytes(h.Seed(), h.buf) }
func (h *Hash) Sum(b []byte) []byte {
	for i, x := 0, h.Sum64(); i < 8; i++ {
		b = append(b, byte(x>>(8*i)))
	}
	return b
}
func HashComparable[T comparable](seed HashSeed, v T) uint64 {
	return HashString(seed, fmt.Sprintf("%#v", v))
}

// RandN stands in for rand.N of math/rand/v2.
func RandN[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n I) I {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return I(uint64(Rand().Uint64()) % uint64(n))
}

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) { return Rand().Read(b) }

// CryptoReader and the following stand in for package crypto/rand.
var CryptoReader io.Reader = cryptoReader{}

func CryptoRead(b []byte) (int, error) { return Rand().Read(b) }
func CryptoInt(r io.Reader, max *big.Int) (*big.Int, error) {
	return new(big.Int).Mod(new(big.Int).SetUint64(Rand().Uint64()), max), nil
}
func CryptoText() string { return fmt.Sprintf("%026X", Rand().Uint64()) }
