package drv

import (
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"verifh/v"
)

// timed checks that every read and write has a deadline of its own, the
// connection's timeout from now.
func timed(s *Server, timeout *time.Duration) {
	check := func(t time.Time, set *bool, msg string) {
		v.Assert(*set, msg+": a deadline is set for every operation")
		*set = false
		d := t.Sub(time.Now())
		v.Assert(d <= *timeout, msg+": the deadline is not later than the timeout")
		v.Assert(d >= *timeout-500*time.Millisecond, msg+": the deadline is not earlier than the timeout")
	}
	s.onRead = func() { check(s.rdl, &s.rdlSet, "Read") }
	s.onWrite = func() { check(s.wdl, &s.wdlSet, "Write") }
}

// C24_Deadlines: with the default timeout, an arbitrary timeout of up to 99999 seconds in the connection string, or an arbitrary one set later, every read and write on the socket has a fresh deadline of exactly that timeout.
func C24_Deadlines() {
	s := newServer()
	s.maxRec = 1
	timeout := 60 * time.Second
	str := connStr
	if v.Choose(2) == 1 {
		n := v.Concrete(v.Int(1, 5))
		secs := 0
		digits := []byte{}
		for i := 0; i < n; i++ {
			d := v.U8()
			v.Assume(d < 10)
			digits = append(digits, '0'+d)
			secs = secs*10 + int(d)
		}
		str += "?timeout=" + string(digits)
		timeout = time.Duration(secs) * time.Second
	}
	timed(s, &timeout)
	n := 0
	dialTo(s)
	dial := v.Dial
	v.Dial = dialTimed(dial, &timeout, &n)
	c, err := bolt.NewDriver().OpenNeo(str)
	v.Assert(err == nil, "OpenNeo: succeeds")
	v.Assert(n == 1, "OpenNeo: dials once")
	w := &world{s: s, c: c}
	w.anyCall()
	if v.Choose(2) == 1 {
		timeout = time.Duration(v.U32()) * time.Millisecond
		c.SetTimeout(timeout)
	}
	w.s.canFail = 0
	w.exec()
	w.query()
	w.rowsClose()
	w.connClose()
}

func dialTimed(dial dialFunc, timeout *time.Duration, n *int) dialFunc {
	return func(network, addr string, d time.Duration) (conn, error) {
		*n++
		v.Assert(network == "tcp", "dial: over TCP")
		v.AssertEqStr(addr, "host:7687", "dial: the host of the connection string")
		v.Assert(d == *timeout, "dial: with the timeout")
		return dial(network, addr, d)
	}
}

// C24_TLS: the default timeout, or one of 1..4 arbitrary digits in the connection string, applies to dialing with TLS too.
func C24_TLS() {
	str, want := "bolt://host:7687?tls=true", 60
	if v.Choose(2) == 1 {
		want = 0
		str += "&timeout="
		for n := v.Concrete(v.Int(1, 4)); n > 0; n-- {
			d := v.U8()
			v.Assume(d < 10)
			str += string([]byte{'0' + d})
			want = want*10 + int(d)
		}
	}
	t, _ := try(str)
	v.Assert(t.tls == 1 && t.tcp == 0, "dialed with TLS")
	v.Assert(t.timeout == time.Duration(want)*time.Second, "dial: with the timeout")
}

// C24_Pool: connections of a pool, new or used before, have the timeout of the connection string as well, and the one set later.
func C24_Pool() {
	s := newServer()
	s.fixed = true
	timeout := 60 * time.Second
	str := connStr
	if v.Choose(2) == 1 {
		d := v.U8()
		v.Assume(d < 10)
		str += "?timeout=" + string([]byte{'0' + d, '5'})
		timeout = time.Duration(int(d)*10+5) * time.Second
	}
	timed(s, &timeout)
	n := 0
	dialTo(s)
	v.Dial = dialTimed(v.Dial, &timeout, &n)
	p, err := bolt.NewDriverPool(str, 1)
	v.Assert(err == nil, "NewDriverPool: succeeds")
	w := &world{s: s, pooled: true}
	for i := v.Choose(2); i >= 0; i-- {
		w.c, err = p.OpenPool()
		v.Assert(err == nil, "OpenPool: succeeds")
		w.exec()
		if i > 0 {
			v.Assert(w.c.Close() == nil, "Conn.Close: succeeds")
		}
	}
	v.Assert(n == 1, "OpenPool: dials once")
	if v.Choose(2) == 1 {
		timeout = time.Duration(v.U32()) * time.Millisecond
		w.c.SetTimeout(timeout)
	}
	w.begin()
	w.query()
	w.next()
	w.connClose()
}

// C24_Long: requests of 0..200000 bytes, in one chunk or many, and streams of up to 300 (thorough 1500) records, in pieces of 1..1000 bytes: every single read and write of them has a fresh deadline of exactly the timeout.
func C24_Long() {
	s := newServer()
	timeout := 7 * time.Second
	timed(s, &timeout)
	s.tag = "t"
	dialTo(s)
	v.Dial = dialTimed(v.Dial, &timeout, new(int))
	c, err := bolt.NewDriver().OpenNeo(connStr + "?timeout=7")
	v.Assert(err == nil, "OpenNeo: succeeds")
	size := []int{0, 1, 4000, 65534, 65535, 65536, 70000, 131072, 200000}[v.Choose(9)]
	n := 1
	s.frag = []int{0, 1, 2, 100, 1000}[v.Choose(5)]
	if size < 2 {
		n = []int{0, 300 + 1200*v.Tier()}[v.Choose(2)]
	} else {
		s.frag = 0
	}
	s.onPlan = func(p *Plan) { p.N = n }
	b := make([]byte, size)
	for i := range b {
		b[i] = 'a'
	}
	w := &world{s: s, c: c}
	args := map[string]interface{}{"p": string(b)}
	switch v.Choose(3) {
	case 0:
		_, err = c.ExecNeo("Q", args)
	case 1:
		_, _, _, err = c.QueryNeoAll("Q", args)
	case 2:
		_, err = c.ExecPipeline([]string{"Q", "Q2"}, args, nil)
	}
	v.Assert(err == nil, "a call: succeeds")
	s.onPlan, s.fixed = nil, true
	w.exec()
	w.connClose()
}
