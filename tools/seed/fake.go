package main

// A scriptable Bolt v1 server on the loopback network, independent of the driver.

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"sync"
	"time"
)

const (
	mInit      = 0x01
	mAck       = 0x0E
	mReset     = 0x0F
	mRun       = 0x10
	mDiscard   = 0x2F
	mPull      = 0x3F
	mSuccess   = 0x70
	mRecord    = 0x71
	mIgnored   = 0x7E
	mFailure   = 0x7F
	serverWait = 10 * time.Second
)

type M map[string]interface{}
type L []interface{}

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("DEMO: "+format+"\n", args...)
		os.Exit(1)
	}
}

func packHead(n int, tiny, m8 byte) []byte {
	switch {
	case n < 16:
		return []byte{tiny + byte(n)}
	case n < 256:
		return []byte{m8, byte(n)}
	case n < 65536:
		return []byte{m8 + 1, byte(n >> 8), byte(n)}
	}
	return []byte{m8 + 2, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// pack is the PackStream encoding of x.
func pack(x interface{}) []byte {
	switch x := x.(type) {
	case nil:
		return []byte{0xC0}
	case bool:
		if x {
			return []byte{0xC3}
		}
		return []byte{0xC2}
	case int:
		return pack(int64(x))
	case int64:
		switch {
		case x >= -16 && x < 128:
			return []byte{byte(x)}
		case x >= -128 && x < 128:
			return []byte{0xC8, byte(x)}
		case x >= -32768 && x < 32768:
			return []byte{0xC9, byte(x >> 8), byte(x)}
		}
		b := make([]byte, 9)
		b[0] = 0xCB
		binary.BigEndian.PutUint64(b[1:], uint64(x))
		return b
	case float64:
		b := make([]byte, 9)
		b[0] = 0xC1
		binary.BigEndian.PutUint64(b[1:], math.Float64bits(x))
		return b
	case string:
		return append(packHead(len(x), 0x80, 0xD0), x...)
	case L:
		b := packHead(len(x), 0x90, 0xD4)
		for _, e := range x {
			b = append(b, pack(e)...)
		}
		return b
	case M:
		b := packHead(len(x), 0xA0, 0xD8)
		for k, e := range x {
			b = append(append(b, pack(k)...), pack(e)...)
		}
		return b
	case []byte: // already packed
		return x
	}
	panic(fmt.Sprintf("pack: %T", x))
}

type unpacker struct {
	b   []byte
	bad bool
}

func (u *unpacker) take(n int) []byte {
	if n > len(u.b) {
		u.bad, u.b = true, nil
		return make([]byte, n)
	}
	r := u.b[:n]
	u.b = u.b[n:]
	return r
}

func (u *unpacker) num(n int) int {
	r := 0
	for _, b := range u.take(n) {
		r = r<<8 | int(b)
	}
	return r
}

func (u *unpacker) value() interface{} {
	if u.bad {
		return nil
	}
	m := u.take(1)[0]
	str := func(n int) interface{} { return string(u.take(n)) }
	list := func(n int) interface{} {
		l := L{}
		for i := 0; i < n && !u.bad; i++ {
			l = append(l, u.value())
		}
		return l
	}
	dict := func(n int) interface{} {
		r := M{}
		for i := 0; i < n && !u.bad; i++ {
			k, ok := u.value().(string)
			if !ok {
				u.bad = true
			}
			r[k] = u.value()
		}
		return r
	}
	structure := func(n int) interface{} {
		sig := u.take(1)[0]
		return append(L{sig}, list(n).(L)...)
	}
	switch {
	case int8(m) >= -16:
		return int64(int8(m))
	case m == 0xC0:
		return nil
	case m == 0xC3:
		return true
	case m == 0xC2:
		return false
	case m == 0xC1:
		return math.Float64frombits(uint64(u.num(8)))
	case m == 0xC8:
		return int64(int8(u.num(1)))
	case m == 0xC9:
		return int64(int16(u.num(2)))
	case m == 0xCA:
		return int64(int32(u.num(4)))
	case m == 0xCB:
		return int64(u.num(8))
	case m&0xF0 == 0x80:
		return str(int(m & 15))
	case m == 0xD0 || m == 0xD1 || m == 0xD2:
		return str(u.num(1 << (m - 0xD0)))
	case m&0xF0 == 0x90:
		return list(int(m & 15))
	case m == 0xD4 || m == 0xD5 || m == 0xD6:
		return list(u.num(1 << (m - 0xD4)))
	case m&0xF0 == 0xA0:
		return dict(int(m & 15))
	case m == 0xD8 || m == 0xD9 || m == 0xDA:
		return dict(u.num(1 << (m - 0xD8)))
	case m&0xF0 == 0xB0:
		return structure(int(m & 15))
	case m == 0xDC || m == 0xDD:
		return structure(u.num(1 << (m - 0xDC)))
	}
	u.bad = true
	return nil
}

// session is the server's end of one connection.
type session struct {
	net.Conn
	id   int
	seen []string // what was received, in order
}

type request struct {
	sig    byte
	fields L
	query  string
	params M
}

// recv is the next request, or nil when the client is gone.
func (s *session) recv() *request {
	var p []byte
	for {
		s.SetReadDeadline(time.Now().Add(serverWait))
		h := make([]byte, 2)
		if _, err := io.ReadFull(s, h); err != nil {
			return nil
		}
		n := int(h[0])<<8 | int(h[1])
		if n == 0 {
			break
		}
		d := make([]byte, n)
		if _, err := io.ReadFull(s, d); err != nil {
			return nil
		}
		p = append(p, d...)
	}
	u := &unpacker{b: p}
	l, ok := u.value().(L)
	if !ok || u.bad || len(u.b) > 0 {
		s.log("MALFORMED")
		return nil
	}
	r := &request{sig: l[0].(byte), fields: l[1:]}
	switch r.sig {
	case mInit:
		s.log("INIT")
	case mAck:
		s.log("ACK_FAILURE")
	case mReset:
		s.log("RESET")
	case mDiscard:
		s.log("DISCARD_ALL")
	case mPull:
		s.log("PULL_ALL")
	case mRun:
		r.query, _ = r.fields[0].(string)
		r.params, _ = r.fields[1].(M)
		s.log("RUN " + r.query)
	default:
		s.log("UNKNOWN")
	}
	return r
}

var logLock sync.Mutex

func (s *session) log(x string) {
	logLock.Lock()
	s.seen = append(s.seen, x)
	logLock.Unlock()
}

func (s *session) count(x string) int {
	logLock.Lock()
	defer logLock.Unlock()
	n := 0
	for _, y := range s.seen {
		if x == y {
			n++
		}
	}
	return n
}

func (s *session) raw(p []byte) {
	b := []byte{}
	for len(p) > 65535 {
		b = append(append(b, 0xff, 0xff), p[:65535]...)
		p = p[65535:]
	}
	b = append(append(b, byte(len(p)>>8), byte(len(p))), p...)
	s.Write(append(b, 0, 0))
}
func (s *session) success(m M)           { s.raw(append([]byte{0xB1, mSuccess}, pack(m)...)) }
func (s *session) record(f ...interface{}) { s.raw(append([]byte{0xB1, mRecord}, pack(L(f))...)) }
func (s *session) ignored()              { s.raw([]byte{0xB0, mIgnored}) }
func (s *session) failure(code string) {
	s.raw(append([]byte{0xB1, mFailure}, pack(M{"code": code, "message": code})...))
}

// shake answers the handshake and INIT; it returns the INIT request.
func (s *session) shake() *request {
	s.SetReadDeadline(time.Now().Add(serverWait))
	h := make([]byte, 20)
	if _, err := io.ReadFull(s, h); err != nil {
		return nil
	}
	s.Write([]byte{0, 0, 0, 1})
	r := s.recv()
	if r != nil {
		s.success(M{})
	}
	return r
}

// answer is what a query gets: rows, then the summary; or a failure.
type answer struct {
	fields   L
	rows     []L
	summary  M
	failRun  string
	failPull string
}

// serve answers queries with f until the client is gone.
func (s *session) serve(f func(q string, p M) answer) {
	failed := false
	var a answer
	for {
		r := s.recv()
		if r == nil {
			return
		}
		switch {
		case r.sig == mAck || r.sig == mReset:
			failed = false
			s.success(M{})
		case failed:
			s.ignored()
		case r.sig == mRun:
			a = f(r.query, r.params)
			if a.failRun != "" {
				failed = true
				s.failure(a.failRun)
				continue
			}
			fl := a.fields
			if fl == nil {
				fl = L{}
			}
			s.success(M{"fields": fl})
		case r.sig == mPull:
			for _, x := range a.rows {
				s.record(x...)
			}
			if a.failPull != "" {
				failed = true
				s.failure(a.failPull)
				continue
			}
			sm := a.summary
			if sm == nil {
				sm = M{}
			}
			s.success(sm)
		case r.sig == mDiscard:
			s.success(M{})
		}
	}
}

type server struct {
	net.Listener
	sync.Mutex
	sessions []*session
	open     int
}

func (s *server) url() string { return "bolt://" + s.Addr().String() }

func (s *server) get(i int) *session {
	for k := 0; k < 100; k++ {
		s.Lock()
		if i < len(s.sessions) {
			r := s.sessions[i]
			s.Unlock()
			return r
		}
		s.Unlock()
		time.Sleep(20 * time.Millisecond)
	}
	check(false, "no connection %d", i)
	return nil
}

func (s *server) isOpen() int {
	s.Lock()
	defer s.Unlock()
	return s.open
}

// listen starts a server that runs f for every connection.
func listen(f func(*session)) *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err == nil, "listen: %v", err)
	sv := &server{Listener: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			sv.Lock()
			s := &session{Conn: c, id: len(sv.sessions)}
			sv.sessions = append(sv.sessions, s)
			sv.open++
			sv.Unlock()
			go func() {
				defer func() {
					c.Close()
					sv.Lock()
					sv.open--
					sv.Unlock()
				}()
				f(s)
			}()
		}
	}()
	return sv
}

// eventually waits until f holds.
func eventually(f func() bool) bool {
	for k := 0; k < 150; k++ {
		if f() {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return f()
}

// within reports whether f returns in time.
func within(d time.Duration, f func()) bool {
	done := make(chan bool)
	go func() {
		f()
		close(done)
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}
