// Package drv holds the harnesses for connections, statements, transactions
// and pools, run against a model of a Bolt v1 server.
package drv

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"verifh/ref"
	"verifh/v"
)

const (
	stShake = iota
	stInit
	stReady
	stStreaming
	stFailed
	stDefunct
)

// Plan is what the server does with one query.
type Plan struct {
	Q        string
	Fields   []interface{} // column names
	Tag      string        // arbitrary data in everything that answers this query
	Params   map[string]interface{}
	RunFail  bool
	N        int // records
	PullFail bool
	Pulled   bool                   // PULL_ALL answered
	Dropped  bool                   // DISCARD_ALL answered
	Meta     map[string]interface{} // metadata at the end, if not the usual
	more     map[string]interface{} // entries that come with it
}

var (
	errReset  = errors.New("connection reset by peer")
	errClosed = errors.New("use of closed network connection")
)

// Server is a net.Conn whose far end is a Bolt v1 server.
type Server struct {
	id    int
	in    []byte
	out   []byte
	state int
	tx    bool
	inits int

	initMsg   []byte
	onInit    func()
	initGone  bool // the server hangs up after answering INIT
	lateReset bool // reads with nothing to read fail
	budget    int  // bytes sent before the stream ends
	hasBudget bool
	garbage   []byte // sent instead of response garbageAt
	garbageAt int
	nsent     int

	// what it was asked
	reqs   []byte // signatures in order
	plans  []*Plan
	acks   int
	resets int

	commits, rollbacks, begins int
	failures                   int
	txBroken                   bool // a failure inside the transaction: it can only be rolled back
	failExtra                  map[string]interface{}

	// behaviour
	version  []byte
	initResp []byte // payload answered to INIT, SUCCESS when nil
	maxRec   int
	canFail  int  // remaining failures
	fixed    bool // never fork: one record per query, no failures
	noFork   bool
	failWith map[string]interface{} // the metadata of failures
	tag      string                 // instead of arbitrary data in the answers
	tolerant bool                   // a failure was made up
	more     map[string]interface{} // entries in the metadata of every success

	hasFields, noFields bool

	frag     int // bytes per read, 0 unlimited
	txFail   bool
	fields   interface{}                       // announced instead of the columns
	want     map[string]map[string]interface{} // parameters expected per query
	onPlan   func(*Plan)
	rec      func(p *Plan, i int) []interface{} // contents of a record
	resetBad int                                // how RESET is answered: 1 failure, 2 record, 3 not at all
	ackFails int                                // times ACK_FAILURE is answered with FAILURE

	split int // responses come in chunks of so many bytes

	// faults
	ops     int
	faultOp int // index of the I/O operation that fails, -1 none
	fault   int
	faulted bool
	lateEOF bool // reads with nothing to read end in EOF

	// socket
	closed   int
	closeErr error
	rdl, wdl time.Time
	rdlSet   bool
	wdlSet   bool
	onRead   func()
	onWrite  func()
	yield    bool
	busy     int
	late     int // operations after the fault was reported
}

func newServer() *Server {
	return &Server{version: []byte{0, 0, 0, 1}, faultOp: -1, maxRec: 2, canFail: 1, want: map[string]map[string]interface{}{}}
}

// Plan is the last run of q.
func (s *Server) Plan(q string) *Plan {
	for i := len(s.plans) - 1; i >= 0; i-- {
		if p := s.plans[i]; p.Q == q {
			return p
		}
	}
	return nil
}

func (s *Server) send(p []byte) {
	if s.garbage != nil && s.nsent == s.garbageAt {
		p = s.garbage
	}
	s.nsent++
	if n := s.split; n > 0 && len(p) > n {
		// in chunks of n bytes
		for len(p) > 0 {
			n = min(n, len(p))
			s.out = append(s.out, byte(n>>8), byte(n))
			s.out = append(s.out, p[:n]...)
			p = p[n:]
		}
		s.out = append(s.out, 0, 0)
		return
	}
	s.out = append(s.out, ref.Frame(p)...)
}
func (s *Server) success(m map[string]interface{}) {
	m = with(m, s.more)
	s.send(ref.Enc(nil, messages.NewSuccessMessage(m)))
}
func (s *Server) failure(q string) {
	s.send(ref.Enc(nil, messages.NewFailureMessage(s.failMeta(q))))
	s.state = stFailed
	s.failures++
	if s.tx {
		s.txBroken = true
	}
}

// failMeta is the metadata of the failure of query q.
func (s *Server) failMeta(q string) map[string]interface{} {
	if s.failWith != nil {
		return s.failWith
	}
	m := map[string]interface{}{"code": "E:" + q}
	if p := s.Plan(q); p != nil {
		m["tag"] = p.Tag
	}
	for k, x := range s.failExtra {
		m[k] = x
	}
	return m
}

func (s *Server) cur() *Plan { return s.plans[len(s.plans)-1] }

func (s *Server) plan(q string, params map[string]interface{}) *Plan {
	p := &Plan{Q: q, Params: params, Tag: s.tag, more: s.more}
	if s.tag == "" {
		p.Tag = v.Str(2)
	}
	s.plans = append(s.plans, p)
	control := q == "BEGIN" || q == "COMMIT" || q == "ROLLBACK"
	if control {
		v.Assert(len(params) == 0, "request: "+q+" has no parameters")
		if s.txFail && s.canFail > 0 && v.Choose(2) == 1 {
			s.canFail--
			p.RunFail = true
		}
		if q == "COMMIT" && s.txBroken {
			p.RunFail = true
		}
		return p
	}
	if s.onPlan != nil {
		s.onPlan(p)
		return p
	}
	if s.fixed {
		p.N = 1
		return p
	}
	n := s.maxRec + 1
	if s.canFail > 0 {
		switch k := v.Choose(2*n + 1); {
		case k < n:
			p.N = k
		case k < 2*n:
			p.N, p.PullFail = k-n, true
			s.canFail--
		default:
			p.RunFail = true
			s.canFail--
		}
	} else {
		p.N = v.Choose(n)
	}
	return p
}

func (p *Plan) columns() []interface{} {
	if p.Fields != nil {
		return p.Fields
	}
	return []interface{}{"c:" + p.Q, "t:" + p.Tag}
}

// summary is the metadata at the end of a stream.
func (p *Plan) summary() map[string]interface{} {
	if p.Meta != nil {
		return p.Meta
	}
	return with(map[string]interface{}{"sum": p.Q, "tag": p.Tag}, p.more)
}

// with is m and the entries of more it does not have.
func with(m, more map[string]interface{}) map[string]interface{} {
	if len(more) == 0 {
		return m
	}
	r := map[string]interface{}{}
	for k, x := range more {
		r[k] = x
	}
	for k, x := range m {
		r[k] = x
	}
	return r
}

func record(p *Plan, i int) []interface{} { return []interface{}{p.Q, p.Tag, int64(i)} }

func (s *Server) record(p *Plan, i int) []interface{} {
	if s.rec != nil {
		return s.rec(p, i)
	}
	return record(p, i)
}

func (s *Server) handle(m []byte) {
	v.Assert(len(m) >= 2, "request: empty message")
	if s.state == stDefunct {
		return
	}
	sig := m[1]
	s.reqs = append(s.reqs, sig)
	if s.state == stInit {
		v.Assert(m[0] == 0xB2 && sig == 0x01, "request: the first message is INIT")
		s.inits++
		s.initMsg = append([]byte{}, m...)
		if s.onInit != nil {
			s.onInit()
		}
		if s.initResp != nil {
			s.send(s.initResp)
			s.state = stFailed
			if len(s.initResp) > 1 && s.initResp[1] == 0x70 {
				s.state = stReady
			}
			if s.initGone {
				s.state = stDefunct
				s.lateEOF = true
			}
			return
		}
		s.success(map[string]interface{}{"server": "fake"})
		s.state = stReady
		return
	}
	switch sig {
	case 0x0F: // RESET
		v.Assert(m[0] == 0xB0 && len(m) == 2, "request: RESET")
		switch s.resetBad {
		case 1:
			s.failure("RESET")
			return
		case 2:
			s.send([]byte{0xB1, 0x71, 0x90})
			return
		case 3:
			s.lateEOF = true
			return
		}
		s.success(map[string]interface{}{})
		s.state = stReady
		s.tx = false
		s.resets++
		return
	case 0x0E: // ACK_FAILURE
		v.Assert(m[0] == 0xB0 && len(m) == 2, "request: ACK_FAILURE")
		v.Assert(s.state == stFailed || s.tolerant, "request: ACK_FAILURE without a failure")
		s.acks++
		if s.ackFails > 0 {
			s.ackFails--
			s.failure("ACK")
			return
		}
		s.success(map[string]interface{}{})
		s.state = stReady
		return
	}
	if s.state == stFailed {
		s.send([]byte{0xB0, 0x7E})
		return
	}
	switch sig {
	case 0x10:
		v.Assert(m[0] == 0xB2, "request: RUN")
		f, ok := ref.Fields(m[2:], 2)
		v.Assert(ok, "request: RUN fields")
		q, ok := f[0].(string)
		v.Assert(ok, "request: RUN statement is a string")
		params, ok := f[1].(map[string]interface{})
		v.Assert(ok, "request: RUN parameters are a map")
		v.Assert(s.state == stReady, "request: RUN while results are pending")
		if w, ok := s.want[q]; ok {
			ref.Same(params, w, "request: RUN parameters")
		}
		p := s.plan(q, params)
		if q == "BEGIN" {
			s.begins++
			v.Assert(!s.tx, "request: BEGIN inside a transaction")
		}
		if q == "COMMIT" || q == "ROLLBACK" {
			v.Assert(s.tx, "request: "+q+" without a transaction")
			s.tx = false
			if q == "COMMIT" {
				s.commits++
			} else {
				s.rollbacks++
			}
		}
		if p.RunFail {
			s.failure(q)
			return
		}
		if q == "BEGIN" {
			s.tx, s.txBroken = true, false
		}
		if p.Fields == nil {
			p.Fields = p.columns()
		}
		switch {
		case s.noFields:
			s.success(map[string]interface{}{})
		case s.hasFields:
			s.success(map[string]interface{}{"fields": s.fields})
		default:
			s.success(map[string]interface{}{"fields": p.Fields})
		}
		s.state = stStreaming
	case 0x3F, 0x2F:
		v.Assert(m[0] == 0xB0 && len(m) == 2, "request: PULL_ALL or DISCARD_ALL")
		v.Assert(s.state == stStreaming, "request: PULL_ALL or DISCARD_ALL without a result")
		p := s.cur()
		if sig == 0x3F {
			p.Pulled = true
			for i := 0; i < p.N; i++ {
				s.send(ref.Enc(nil, messages.NewRecordMessage(s.record(p, i))))
			}
		} else {
			p.Dropped = true
		}
		if p.PullFail {
			s.failure(p.Q)
			return
		}
		s.success(p.summary())
		s.state = stReady
	default:
		v.Fail("request: unknown message")
	}
}

// enter and leave catch overlapping use of one socket.
func (s *Server) enter() {
	v.Lock()
	busy := s.busy
	s.busy++
	v.Unlock()
	v.Assert(busy == 0, "a connection is used by one user at a time")
	v.Yield()
}

func (s *Server) leave() {
	v.Lock()
	s.busy--
	v.Unlock()
}

func (s *Server) Write(b []byte) (int, error) {
	v.Touch(b, false)
	if s.yield {
		s.enter()
		defer s.leave()
	}
	v.Lock()
	defer v.Unlock()
	if s.onWrite != nil {
		s.onWrite()
	}
	if s.closed > 0 {
		return 0, errClosed
	}
	op := s.ops
	s.ops++
	if s.faulted {
		s.late++
		if s.fault != 6 {
			return 0, errReset
		}
	}
	if op == s.faultOp {
		s.faulted = true
		if s.fault == 6 {
			return 0, timedOut{}
		}
		if s.fault == 3 && len(b) > 1 {
			s.take(b[:len(b)/2])
			return len(b) / 2, errReset
		}
		if s.fault == 4 {
			// the bytes got through, the acknowledgement did not
			s.take(b)
			return len(b), errReset
		}
		return 0, errReset
	}
	s.take(b)
	return len(b), nil
}

func (s *Server) take(b []byte) {
	s.in = append(s.in, b...)
	if s.state == stShake {
		if len(s.in) < 20 {
			return
		}
		want := []byte{0x60, 0x60, 0xB0, 0x17, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
		v.AssertEqBytes(s.in[:20], want, "handshake bytes")
		s.in = s.in[20:]
		s.out = append(s.out, s.version...)
		s.state = stInit
	}
	for len(s.in) > 0 {
		m, rest, ok := ref.Unframe(s.in)
		if !ok {
			return
		}
		s.in = rest
		s.handle(m)
	}
}

func (s *Server) Read(b []byte) (int, error) {
	if s.yield && len(b) > 0 {
		s.enter()
		defer s.leave()
	}
	v.Lock()
	defer v.Unlock()
	if s.onRead != nil && len(b) > 0 { // reading nothing only asks whether the socket is alive
		s.onRead()
	}
	if s.closed > 0 {
		return 0, errClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	op := s.ops
	s.ops++
	if s.faulted {
		s.late++
	}
	if op == s.faultOp {
		s.faulted = true
	}
	if s.faulted && (s.fault != 6 || op == s.faultOp) {
		switch s.fault {
		case 1:
			return 0, io.EOF
		case 6:
			return 0, timedOut{}
		case 2:
			// some bytes arrive with the error
			if n := len(s.out); n > 0 && op == s.faultOp {
				n = (min(n, len(b)) + 1) / 2
				copy(b, s.out[:n])
				s.out = s.out[n:]
				return n, errReset
			}
		}
		return 0, errReset
	}
	if len(s.out) == 0 {
		if s.lateEOF {
			s.faulted, s.fault = true, 1
			return 0, io.EOF
		}
		if s.lateReset {
			s.faulted, s.fault = true, 0
			return 0, errReset
		}
		v.Fail("the client waits for a response that never comes")
	}
	n := min(len(b), len(s.out))
	if s.frag > 0 && n > s.frag {
		n = s.frag
	}
	if s.hasBudget {
		if s.budget < n {
			n = v.Concrete(s.budget)
		}
		s.budget -= n
		if n == 0 {
			s.faulted = true
			if s.fault == 1 {
				return 0, io.EOF
			}
			return 0, errReset
		}
	}
	v.Touch(b[:n], true)
	copy(b, s.out[:n])
	s.out = s.out[n:]
	return n, nil
}

func (s *Server) Close() error {
	v.Lock()
	defer v.Unlock()
	s.closed++
	return s.closeErr
}
func (s *Server) LocalAddr() net.Addr  { return nil }
func (s *Server) RemoteAddr() net.Addr { return nil }
func (s *Server) SetDeadline(t time.Time) error {
	s.SetReadDeadline(t)
	return s.SetWriteDeadline(t)
}
func (s *Server) SetReadDeadline(t time.Time) error {
	v.Lock()
	defer v.Unlock()
	if s.closed > 0 {
		return errClosed
	}
	s.rdl, s.rdlSet = t, true
	return s.deadline()
}
func (s *Server) SetWriteDeadline(t time.Time) error {
	v.Lock()
	defer v.Unlock()
	if s.closed > 0 {
		return errClosed
	}
	s.wdl, s.wdlSet = t, true
	return s.deadline()
}

// timedOut is the error of an operation that took too long. The transport works again afterwards.
type timedOut struct{}

func (timedOut) Error() string   { return "i/o timeout" }
func (timedOut) Timeout() bool   { return true }
func (timedOut) Temporary() bool { return true }

// deadline fails when the fault is that deadlines cannot be set.
func (s *Server) deadline() error {
	if s.fault == 5 && s.ops == s.faultOp {
		s.faulted = true
		return errReset
	}
	return nil
}

type (
	conn     = net.Conn
	dialFunc = func(network, addr string, timeout time.Duration) (net.Conn, error)
)

// dialTo makes the code under test reach these servers in turn.
func dialTo(ss ...*Server) *int {
	n := new(int)
	v.Dial = func(network, addr string, timeout time.Duration) (net.Conn, error) {
		v.Lock()
		defer v.Unlock()
		if *n >= len(ss) {
			return nil, errReset
		}
		s := ss[*n]
		*n++
		return s, nil
	}
	return n
}
