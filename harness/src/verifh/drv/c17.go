package drv

import (
	"database/sql/driver"
	"io"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"verifh/ref"
	"verifh/v"
)

// frail is a session whose transport may fail.
type frail struct {
	s    *Server
	c    bolt.Conn
	dead bool
}

// ok checks one call: right, or an error, and nothing but errors after it.
func (f *frail) ok(err error, msg string, right func()) bool {
	if f.dead {
		v.Assert(err != nil, msg+": fails after a transport error")
		return false
	}
	if err != nil {
		v.Assert(f.s.faulted, msg+": fails only when the transport did")
		v.Assert(err != io.EOF, msg+": a lost connection is not an end of rows")
		f.dead = true
		return false
	}
	if right != nil {
		right()
	}
	return true
}

// closes checks closing rows or a statement, which may have nothing to do.
func (f *frail) closes(err error, msg string) {
	if !f.dead {
		f.ok(err, msg, nil)
	}
}

func (f *frail) exec(q string) {
	r, err := f.c.ExecNeo(q, nil)
	f.ok(err, "ExecNeo", func() { ref.Same(r.Metadata(), f.s.Plan(q).summary(), "ExecNeo: metadata") })
}

func (f *frail) read(r bolt.Rows, q string, n int) {
	for i := 0; i < n; i++ {
		row, meta, err := r.NextNeo()
		p := f.s.Plan(q)
		if !f.dead && err == io.EOF {
			v.Assert(i >= p.N, "NextNeo: no row is lost")
			if i == p.N {
				ref.Same(meta, p.summary(), "NextNeo: summary")
			}
			continue
		}
		f.ok(err, "NextNeo", func() {
			v.Assert(i < p.N, "NextNeo: no row too many")
			ref.Same(row, record(p, i), "NextNeo: row")
		})
	}
}

func (f *frail) query() {
	r, err := f.c.QueryNeo("Q", nil)
	if f.ok(err, "QueryNeo", nil) {
		f.read(r, "Q", v.Choose(4))
		f.closes(r.Close(), "Rows.Close")
	}
}

func (f *frail) scenario() {
	switch v.Choose(8) {
	case 0:
		f.exec("Q")
	case 1:
		f.query()
	case 2:
		data, _, _, err := f.c.QueryNeoAll("Q", nil)
		f.ok(err, "QueryNeoAll", func() {
			v.Assert(len(data) == 2, "QueryNeoAll: number of rows")
			for i := range data {
				ref.Same(data[i], record(f.s.Plan("Q"), i), "QueryNeoAll: row")
			}
		})
	case 3:
		st, err := f.c.PrepareNeo("Q")
		v.Assert(err == nil, "PrepareNeo: succeeds")
		r, err := st.QueryNeo(nil)
		if f.ok(err, "Stmt.QueryNeo", nil) {
			f.read(r, "Q", v.Choose(4))
		}
		f.closes(st.Close(), "Stmt.Close")
	case 4, 5:
		tx, err := f.c.Begin()
		if f.ok(err, "Begin", nil) {
			f.exec("Q")
			n := f.s.commits
			if v.Choose(2) == 0 {
				f.ok(tx.Commit(), "Commit", func() { v.Assert(f.s.commits == n+1, "Commit: committed") })
			} else {
				f.ok(tx.Rollback(), "Rollback", func() { v.Assert(f.s.rollbacks == 1, "Rollback: rolled back") })
			}
		}
	case 6:
		rs, err := f.c.ExecPipeline([]string{"A", "B"}, nil, nil)
		f.ok(err, "ExecPipeline", func() {
			ref.Same(rs[0].Metadata(), f.s.Plan("A").summary(), "ExecPipeline: metadata")
			ref.Same(rs[1].Metadata(), f.s.Plan("B").summary(), "ExecPipeline: metadata")
		})
	case 7:
		r, err := f.c.QueryPipeline([]string{"A", "B"}, nil, nil)
		if !f.ok(err, "QueryPipeline", nil) {
			return
		}
		cur := r
		for k, q := range []string{"A", "B"} {
			for i := 0; i < 3; i++ {
				row, _, nx, err := cur.NextPipeline()
				p := f.s.Plan(q)
				f.ok(err, "NextPipeline", func() {
					if i < 2 {
						ref.Same(row, record(p, i), "NextPipeline: row")
						return
					}
					v.Assert((nx != nil) == (k == 0), "NextPipeline: the next rows")
				})
				if nx != nil {
					cur = nx
				}
			}
			if f.dead {
				break
			}
		}
		f.closes(cur.Close(), "PipelineRows.Close")
	}
}

// C17_Faults: any one read, write or deadline fails in any of 7 ways (reset, end of stream, bytes together with an error, a partial write, a write that got through but fails, a deadline that cannot be set, a timeout after which the transport works again) during any of 8 uses of a driver's or a pool's connection: every call gives the right result or an error, nothing is read or written after the failure, all later calls fail, and Close releases the socket.
func C17_Faults() {
	w := newAny()
	s := w.s
	s.onPlan = func(p *Plan) { p.N = 2 }
	s.frag = v.Choose(2) * 7
	f := &frail{s: s, c: w.c}
	s.faultOp = s.ops + v.Int(0, 60)
	s.fault = v.Choose(7)
	f.scenario()
	if !s.faulted {
		f.c.Close()
		return
	}
	f.dead = true
	v.Reach("faulted")
	f.exec("P")
	_, err := f.c.QueryNeo("P2", nil)
	v.Assert(err != nil, "QueryNeo: fails after a transport error")
	_, err = f.c.Begin()
	v.Assert(err != nil, "Begin: fails after a transport error")
	v.Assert(s.late == 0, "nothing is read or written after a failure")
	f.c.Close()
	v.Assert(s.closed == 1, "Close: the socket is released")
	v.Assert(s.late == 0, "nothing is read or written after a failure")
}

// C17_Truncated: the server's responses end after an arbitrary number of bytes; each is one chunk, or chunks of 5 bytes.
func C17_Truncated() {
	s := newServer()
	s.onPlan = func(p *Plan) { p.N = 2 }
	f := &frail{s: s, c: open(s)}
	s.budget = v.Int(0, 150)
	s.split = v.Choose(2) * 5
	s.hasBudget = true
	s.fault = v.Choose(2)
	f.scenario()
	if !s.faulted {
		f.c.Close()
		return
	}
	f.dead = true
	f.exec("P")
	v.Assert(s.late == 0, "nothing is read or written after a failure")
	f.c.Close()
	v.Assert(s.closed == 1, "Close: the socket is released")
}

// C17_Garbage: one response is replaced with 1..3 arbitrary bytes: when they are malformed the call fails and so does every later call; nothing panics and Close releases the socket.
func C17_Garbage() {
	s := newServer()
	s.onPlan = func(p *Plan) { p.N = 1 }
	c := open(s)
	s.garbage = v.Bytes(v.Concrete(v.Int(1, 2+v.Tier())))
	s.garbageAt = s.nsent + v.Choose(3)
	s.lateEOF = true
	_, ok, _ := ref.Dec(s.garbage)
	var err error
	switch v.Choose(3) {
	case 0:
		_, err = c.ExecNeo("Q", nil)
	case 1:
		var r bolt.Rows
		r, err = c.QueryNeo("Q", nil)
		if err == nil {
			_, _, err = r.All()
		}
	case 2:
		_, err = c.Begin()
	}
	if !ok && s.nsent > s.garbageAt {
		v.Assert(err != nil, "a malformed response is an error")
		ops := s.ops
		_, err = c.ExecNeo("P", nil)
		v.Assert(err != nil, "every call fails after a malformed response")
		v.Assert(s.ops == ops, "nothing is read or written after a malformed response")
		v.Reach("malformed")
	}
	c.Close()
	v.Assert(s.closed == 1, "Close: the socket is released")
}

// C17_Sql: any one read, write or deadline fails in any of 7 ways during a query, a prepared query or a transaction through database/sql.
func C17_Sql() {
	s := newServer()
	s.onPlan = func(p *Plan) { p.N = 2 }
	c := sqlOpen(s)
	f := &frail{s: s, c: c.(bolt.Conn)}
	s.faultOp = s.ops + v.Int(0, 40)
	s.fault = v.Choose(7)
	dest := make([]driver.Value, 3)
	read := func(r driver.Rows) {
		for i := 0; i < 4; i++ {
			err := r.Next(dest)
			if !f.dead && err == io.EOF {
				v.Assert(i >= 2, "Next: no row is lost")
				continue
			}
			f.ok(err, "Next", func() {
				v.Assert(i < 2, "Next: no row too many")
				ref.Same(dest[2], int64(i), "Next: row")
			})
		}
		f.closes(r.Close(), "Rows.Close")
	}
	switch v.Choose(3) {
	case 0:
		r, err := c.(driver.Queryer).Query("Q", nil)
		if f.ok(err, "Query", nil) {
			read(r)
		}
	case 1:
		st, err := c.Prepare("Q")
		v.Assert(err == nil, "Prepare: succeeds")
		r, err := st.Query(nil)
		if f.ok(err, "Stmt.Query", nil) {
			read(r)
		}
		f.closes(st.Close(), "Stmt.Close")
	case 2:
		tx, err := c.Begin()
		if f.ok(err, "Begin", nil) {
			_, err = c.(driver.Execer).Exec("Q", nil)
			f.ok(err, "Exec", nil)
			f.ok(tx.Commit(), "Commit", func() { v.Assert(s.commits == 1, "Commit: committed") })
		}
	}
	if s.faulted {
		f.dead = true
		f.exec("P")
		v.Assert(s.late == 0, "nothing is read or written after a failure")
		v.Reach("faulted")
	}
	c.Close()
	v.Assert(s.closed == 1, "Close: the socket is released")
	v.Assert(s.late == 0, "nothing is read or written after a failure")
}

// C17_Refused: the server refuses a query (when it is run or pulled), and any one read, write or deadline of that call, the acknowledgement included, fails in any of 7 ways: the call is an error and not the end of rows, and after a transport failure nothing more is read or written.
func C17_Refused() {
	w := newAny()
	s := w.s
	pull, done := v.Choose(2) == 1, false
	s.onPlan = func(p *Plan) {
		p.N = 1
		if !done && p.Q != "A" {
			p.RunFail, p.PullFail = !pull, pull
			done = true
		}
	}
	s.faultOp = s.ops + v.Int(0, 40)
	s.fault = v.Choose(7)
	var err error
	rd := func(r bolt.Rows, e error) {
		err = e
		for i := 0; err == nil && i < 3; i++ {
			_, _, err = r.NextNeo()
		}
		if e == nil {
			r.Close()
		}
	}
	switch v.Choose(6) {
	case 0:
		_, err = w.c.ExecNeo("Q", nil)
	case 1:
		rd(w.c.QueryNeo("Q", nil))
	case 2:
		_, _, _, err = w.c.QueryNeoAll("Q", nil)
	case 3:
		st, e := w.c.PrepareNeo("Q")
		v.Assert(e == nil, "PrepareNeo: succeeds")
		rd(st.QueryNeo(nil))
		st.Close()
	case 4:
		_, err = w.c.ExecPipeline([]string{"A", "Q"}, nil, nil)
	case 5:
		r, e := w.c.QueryPipeline([]string{"A", "Q"}, nil, nil)
		err = e
		var cur bolt.PipelineRows = r
		for i := 0; err == nil && i < 5; i++ {
			var nx bolt.PipelineRows
			if _, _, nx, err = cur.NextPipeline(); nx != nil {
				cur = nx
			}
		}
		if e == nil {
			cur.Close()
		}
	}
	v.Assert(err != nil, "a refused query is never a success")
	v.Assert(err != io.EOF, "a refused query is not the end of rows")
	ops := s.ops
	_, err = w.c.ExecNeo("P", nil)
	if !s.faulted {
		v.Assert(err == nil, "the connection goes on after a failure")
		return
	}
	if s.ops == ops {
		v.Assert(err != nil, "ExecNeo: fails after a transport error")
	}
	v.Reach("faulted")
	_, err = w.c.ExecNeo("P", nil)
	v.Assert(err != nil, "ExecNeo: fails after a transport error")
	v.Assert(s.late == 0, "nothing is read or written after a failure")
	w.c.Close()
	v.Assert(s.closed == 1, "Close: the socket is released")
	v.Assert(s.late == 0, "nothing is read or written after a failure")
}
