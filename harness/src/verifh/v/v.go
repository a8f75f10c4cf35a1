// Package v is the harness interface.  Under the symbolic engine every
// function of this file marked (engine) is replaced; natively the same
// harness runs on the concrete inputs of a witness.
package v

import (
	"bytes"
	"crypto/tls"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

type jin struct {
	K string `json:"k"`
	V string `json:"v"`
}
type jobs struct {
	L string `json:"l"`
	V string `json:"v"`
}
type witness struct {
	Harness string `json:"harness"`
	Inputs  []jin  `json:"inputs"`
	Tier    int    `json:"tier"`
}
type nres struct {
	Idx  int
	Fail string
	Obs  []jobs
	Skip bool
}

var (
	mu      sync.Mutex
	cur     *witness
	pos     int
	res     *nres
	alloc   uint64
	allocAt uint64
	// OnStart installs the library hooks (native only).
	OnStart func()
)

type stop struct{}

// Symbolic reports whether the symbolic engine runs the harness. (engine)
func Symbolic() bool { return false }

// Tier is 0 for quick and 1 for thorough. (engine)
func Tier() int { return cur.Tier }

func next(k string) string {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(cur.Inputs) {
		return ""
	}
	in := cur.Inputs[pos]
	pos++
	if in.K != k {
		if res.Fail == "" {
			res.Fail = fmt.Sprintf("replay diverged: input %d is %q, wanted %q", pos-1, in.K, k)
		}
		panic(stop{})
	}
	return in.V
}

func u() uint64 {
	s := next("u")
	if s == "" {
		return 0
	}
	x, _ := strconv.ParseUint(s, 10, 64)
	return x
}

// Bool and the functions below are symbolic inputs. (engine)
func Bool() bool { return u() == 1 }

// Int is an integer in [lo,hi]. (engine)
func Int(lo, hi int) int {
	mu.Lock()
	have := pos < len(cur.Inputs)
	mu.Unlock()
	x := int(u())
	if !have {
		return lo
	}
	return x
}
func U8() uint8   { return uint8(u()) }
func U16() uint16 { return uint16(u()) }
func U32() uint32 { return uint32(u()) }
func U64() uint64 { return u() }
func I8() int8    { return int8(u()) }
func I16() int16  { return int16(u()) }
func I32() int32  { return int32(u()) }
func I64() int64  { return int64(u()) }

// Bytes is n arbitrary bytes. (engine)
func Bytes(n int) []byte {
	b, _ := hex.DecodeString(next("b"))
	for len(b) < n {
		b = append(b, 0)
	}
	return b[:n:n]
}

// Str is an arbitrary string of n bytes. (engine)
func Str(n int) string { return string(Bytes(n)) }

// Choose forks over 0..n-1. (engine)
func Choose(n int) int { return int(u()) }

// Concrete forks over the values of n. (engine)
func Concrete(n int) int { return n }

// Assume restricts the inputs. (engine)
func Assume(b bool) {
	if !b {
		mu.Lock()
		res.Skip = true
		mu.Unlock()
		panic(stop{})
	}
}

func fail(msg string) {
	mu.Lock()
	if res.Fail == "" {
		res.Fail = msg
	}
	mu.Unlock()
	panic(stop{})
}

// Assert states the property. (engine)
func Assert(b bool, msg string) {
	if !b {
		fail(msg)
	}
}

// AssertEqBytes (engine)
func AssertEqBytes(a, b []byte, msg string) {
	if len(a) != len(b) {
		fail(msg + " (length)")
	}
	if !bytes.Equal(a, b) {
		fail(msg)
	}
}

// AssertEqStr (engine)
func AssertEqStr(a, b string, msg string) {
	if len(a) != len(b) {
		fail(msg + " (length)")
	}
	if a != b {
		fail(msg)
	}
}

// Fail is Assert(false). (engine)
func Fail(msg string) { fail(msg) }

// Reach marks a point that some path must reach. (engine)
func Reach(string) {}

func ob(l, s string) {
	mu.Lock()
	res.Obs = append(res.Obs, jobs{l, s})
	mu.Unlock()
}

// ObsI, ObsB, ObsS record values compared between engine and native. (engine)
func ObsI(l string, x int)    { ob(l, strconv.Itoa(x)) }
func ObsB(l string, x bool)   { ob(l, strconv.FormatBool(x)) }
func ObsS(l string, s string) { ob(l, hex.EncodeToString([]byte(s))) }

// AllocLimit makes any larger allocation a violation. (engine)
func AllocLimit(n int) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	alloc, allocAt = uint64(n), m.TotalAlloc
}

// AllocTotal makes allocating more than n bytes in sum a violation. (engine)
func AllocTotal(n int) { AllocLimit(n - 1<<19) }

// StackLimit makes nesting more than frames calls a violation; natively it is a
// stack of that many hundred bytes. (engine)
func StackLimit(frames int) { debug.SetMaxStack(frames * 400) }

// MapOrder makes map iteration order a symbolic choice. (engine)
func MapOrder(bool) {}

// InitAll initialises the packages of the driver, as starting the program does. (engine)
func InitAll() {}

// Concurrent turns on preemption (up to n) and race detection. (engine)
func Concurrent(n int) {}

var netMu sync.Mutex

// Lock and Unlock keep the harness's own state consistent in native runs; they
// order nothing in the engine. (engine)
func Lock()   { netMu.Lock() }
func Unlock() { netMu.Unlock() }

// Touch counts as an access to b by the code under test. (engine)
func Touch(b []byte, write bool) {}

// Yield is a scheduling point. (engine)
func Yield() { runtime.Gosched() }

// LogCount counts log lines so far. (engine)
func LogCount() int { return 0 }

// Ite, And, Or do not fork. (engine)
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// ClockAdvance moves the model clock. (engine)
func ClockAdvance(ns int) {}

func catch() { // (engine)
	if r := recover(); r != nil {
		if _, ok := r.(stop); ok {
			return
		}
		mu.Lock()
		if res.Fail == "" {
			res.Fail = fmt.Sprintf("uncaught panic in goroutine: %v\n%s", r, debug.Stack())
		}
		mu.Unlock()
	}
}

// Go starts a goroutine whose panics are reported.
func Go(f func()) {
	go func() {
		defer catch()
		f()
	}()
}

// ---- environment ----

var (
	Dial     func(network, addr string, timeout time.Duration) (net.Conn, error)
	TLS      func(network, addr string, timeout time.Duration, cfg *tls.Config) error
	KeyPair  func(cert, key string) (tls.Certificate, error)
	Files    func(name string) ([]byte, error)
	PEM      func(b []byte) bool
	errNoNet = errors.New("no network")
)

// DialTCP is what the code under test reaches when it dials.
func DialTCP(network, addr string, timeout time.Duration) (net.Conn, error) {
	if Dial == nil {
		return nil, errNoNet
	}
	return Dial(network, addr, timeout)
}

// DialTLS is what it reaches when it dials with TLS; the dial always fails.
func DialTLS(network, addr string, timeout time.Duration, cfg *tls.Config) error {
	if TLS == nil {
		return errNoNet
	}
	return TLS(network, addr, timeout, cfg)
}

// LoadKeyPair replaces tls.LoadX509KeyPair.
func LoadKeyPair(cert, key string) (tls.Certificate, error) {
	if KeyPair == nil {
		return tls.Certificate{}, errNoNet
	}
	return KeyPair(cert, key)
}

// ReadFile replaces os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	if Files == nil {
		return nil, errNoNet
	}
	return Files(name)
}

// AppendPEM replaces (*x509.CertPool).AppendCertsFromPEM.
func AppendPEM(b []byte) bool {
	if PEM == nil {
		return false
	}
	return PEM(b)
}

// LogLine writes one line of a log. (called by the engine's model of log.Logger)
func LogLine(w io.Writer, s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	w.Write([]byte(s))
}

// NativeMain runs witnesses read from standard input.
func NativeMain(hs map[string]func()) {
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	var ws []*witness
	if err := json.Unmarshal(in, &ws); err != nil {
		panic(err)
	}
	if OnStart != nil {
		OnStart()
	}
	enc := json.NewEncoder(os.Stdout)
	for i, w := range ws {
		f := hs[w.Harness]
		if f == nil {
			enc.Encode(&nres{Idx: i, Fail: "no such harness"})
			continue
		}
		cur, pos, res, alloc = w, 0, &nres{Idx: i}, 0
		Dial, TLS, KeyPair, Files, PEM = nil, nil, nil, nil, nil
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer catch()
			f()
		}()
		hung := false
		select {
		case <-done:
		case <-time.After(8 * time.Second):
			hung = true
		}
		mu.Lock()
		if hung && res.Fail == "" {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			res.Fail = "hang: the call did not return within 8s\n" + string(buf)
		}
		if alloc > 0 && res.Fail == "" {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.TotalAlloc-allocAt > alloc+(1<<19) {
				res.Fail = fmt.Sprintf("allocated %d bytes, limit %d", m.TotalAlloc-allocAt, alloc)
			}
		}
		enc.Encode(res)
		mu.Unlock()
		if hung {
			os.Exit(3) // the rest of the batch is run again
		}
	}
}
