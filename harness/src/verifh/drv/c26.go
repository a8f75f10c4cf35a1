package drv

import (
	"io"
	stdlog "log"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"verifh/ref"
	"verifh/v"
)

type lines struct{ n int }

func (l *lines) Write(b []byte) (int, error) {
	l.n++
	return len(b), nil
}

// C26_Session: at every log level any call of the API behaves the same, and without logging nothing is written.
func C26_Session() {
	out := &lines{}
	log.ErrorLog = stdlog.New(out, "", 0)
	log.InfoLog = stdlog.New(out, "", 0)
	log.TraceLog = stdlog.New(out, "", 0)
	lv := v.Choose(4)
	log.SetLevel([]string{"", "error", "info", "trace"}[lv])
	defer log.SetLevel("")
	w := newWorld()
	w.s.maxRec, w.s.txFail = 1, true
	w.anyCall()
	w.probe()
	if lv == 0 {
		v.Assert(out.n == 0, "nothing is logged without logging")
	}
	if lv == 3 {
		v.Assert(out.n > 0, "a trace is logged")
	}
}

// C26_Odd: one response of a session is replaced with ignored, a record, a value that is no message or two arbitrary bytes; the same session runs without logging and at an arbitrary level: every call returns the same, the same requests are sent and as much is read.
func C26_Odd() {
	out := &lines{}
	log.ErrorLog = stdlog.New(out, "", 0)
	log.InfoLog = stdlog.New(out, "", 0)
	log.TraceLog = stdlog.New(out, "", 0)
	defer log.SetLevel("")
	lv := 1 + v.Choose(3)
	at, call := v.Choose(3), v.Choose(5)
	n := 1 + v.Choose(2)
	var g []byte
	switch v.Choose(6) {
	case 0:
		g = []byte{0xB0, 0x7E}
	case 1:
		g = ref.Enc(nil, messages.NewRecordMessage([]interface{}{v.Str(1)}))
	case 2:
		g = ref.Enc(nil, map[string]interface{}{v.Str(1): v.Bool()})
	case 3:
		g = v.Bytes(2)
	case 4:
		g = ref.Enc(nil, messages.NewFailureMessage(map[string]interface{}{"code": v.Str(1)}))
	}
	same(out, lv, call, n, nil, func(s *Server) {
		s.lateEOF = true
		s.garbage, s.garbageAt = g, s.nsent+at
	})
}

// C26_Faults: any one read, write or deadline of a session, opening included, fails in any of 7 ways; the same session runs without logging and at an arbitrary level: every call returns the same, the same requests are sent and as much is read.
func C26_Faults() {
	out := &lines{}
	log.ErrorLog = stdlog.New(out, "", 0)
	log.InfoLog = stdlog.New(out, "", 0)
	log.TraceLog = stdlog.New(out, "", 0)
	defer log.SetLevel("")
	lv := 1 + v.Choose(3)
	op, kind := v.Concrete(v.Int(0, 40)), v.Choose(7)
	same(out, lv, v.Choose(5), 2, func(s *Server) { s.faultOp, s.fault = op, kind }, nil)
}

// same compares the session without logging with the one at a level.
func same(out *lines, lv, call, n int, prep, ready func(s *Server)) {
	a := replay("", call, n, prep, ready)
	v.Assert(out.n == 0, "nothing is logged without logging")
	b := replay([]string{"", "error", "info", "trace"}[lv], call, n, prep, ready)
	v.Assert(len(a.errs) == len(b.errs) && len(a.vals) == len(b.vals), "the same results at every level")
	for i := range a.errs {
		v.Assert(a.errs[i] == b.errs[i], "the same errors at every level")
	}
	for i := range a.vals {
		ref.Same(a.vals[i], b.vals[i], "the same values at every level")
	}
	v.AssertEqBytes(a.s.reqs, b.s.reqs, "the same requests at every level")
	v.Assert(a.s.ops == b.s.ops && len(a.s.out) == len(b.s.out) && a.s.closed == b.s.closed, "the same use of the socket at every level")
}

// replay is one session at a log level.
func replay(level string, call, n int, prep, ready func(s *Server)) *trail {
	log.SetLevel(level)
	t := &trail{s: newServer()}
	s := t.s
	s.tolerant = true
	s.onPlan = func(p *Plan) { p.N = n }
	s.tag = "t"
	if prep != nil {
		prep(s)
	}
	dialTo(s)
	c, err := bolt.NewDriver().OpenNeo(connStr)
	t.err(err)
	if err != nil {
		return t
	}
	if ready != nil {
		ready(s)
	}
	switch call {
	case 0:
		r, err := c.ExecNeo("Q", nil)
		t.err(err)
		if err == nil {
			t.vals = append(t.vals, r.Metadata())
		}
	case 1:
		rows, err := c.QueryNeo("Q", nil)
		t.err(err)
		if err == nil {
			for i := 0; i < 3; i++ {
				row, m, err := rows.NextNeo()
				t.vals = append(t.vals, row, m)
				t.err(err)
			}
			t.err(rows.Close())
		}
	case 2:
		d, _, m, err := c.QueryNeoAll("Q", nil)
		t.err(err)
		for _, x := range d {
			t.vals = append(t.vals, x)
		}
		t.vals = append(t.vals, m)
	case 3:
		tx, err := c.Begin()
		t.err(err)
		if err == nil {
			t.err(tx.Commit())
		}
	case 4:
		rows, err := c.QueryPipeline([]string{"Q", "R"}, nil, nil)
		t.err(err)
		if err == nil {
			for i := 0; i < 3; i++ {
				row, m, nx, err := rows.NextPipeline()
				t.vals = append(t.vals, row, m)
				t.errs = append(t.errs, nx != nil)
				t.err(err)
				if nx != nil {
					rows = nx
				}
			}
			t.err(rows.Close())
		}
	}
	_, err = c.ExecNeo("P", nil)
	t.err(err)
	t.err(c.Close())
	return t
}

// trail is what a session returned.
type trail struct {
	s    *Server
	errs []bool
	vals []interface{}
}

func (t *trail) err(err error) {
	t.errs = append(t.errs, err != nil, err == io.EOF)
}
