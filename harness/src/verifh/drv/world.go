package drv

import (
	"database/sql/driver"
	"io"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	berr "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"verifh/ref"
	"verifh/v"
)

const connStr = "bolt://u:p@host:7687"

func open(s *Server) bolt.Conn {
	dialTo(s)
	c, err := bolt.NewDriver().OpenNeo(connStr)
	v.Assert(err == nil, "open: a healthy server is reached")
	return c
}

// world is a client session and what it should look like.
type world struct {
	s      *Server
	c      bolt.Conn
	nq     int
	closed bool
	pooled bool // the connection belongs to a pool
	strict bool
	sticky bool
	stuck  int

	// the open statement, prepared or implied by a query on the connection
	stmt    bolt.Stmt
	pstmt   bolt.PipelineStmt
	stmtQ   string
	pQ      []string
	hasStmt bool // the connection has an open statement

	rows  bolt.Rows
	rowsQ string
	pos   int
	ended bool // the stream of rows ended
	endEr bool // in a failure

	prows  bolt.PipelineRows
	prowsQ []string
	pidx   int

	tx     driver.Tx
	txOpen bool

	used []interface{ Close() error } // handles that were closed
}

// noop marks an operation that does not apply. Sequences with such a step are
// covered by the shorter sequence without it.
func (w *world) noop() {
	if w.strict {
		v.Assume(false)
	}
}

func newWorld() *world {
	w := &world{s: newServer()}
	w.c = open(w.s)
	return w
}

// newAny is a session of a driver's connection, of a pool's, or of a pool's connection that had another user before.
func newAny() *world {
	how := v.Choose(3)
	if how == 0 {
		return newWorld()
	}
	w := &world{s: newServer(), pooled: true}
	dialTo(w.s)
	p, err := bolt.NewDriverPool(connStr, 1)
	v.Assert(err == nil, "NewDriverPool: succeeds")
	for i := 0; i < how; i++ {
		w.c, err = p.OpenPool()
		v.Assert(err == nil, "OpenPool: succeeds")
		if i+1 < how {
			v.Assert(w.c.Close() == nil, "Conn.Close: succeeds")
		}
	}
	return w
}

// newCtx is newAny, inside or outside a transaction, with the usual columns or with none.
func newCtx() *world {
	var w *world
	if v.Choose(2) == 1 {
		w = newWorld()
		w.s.fixed = true
		w.begin()
		w.s.fixed = false
	} else {
		w = newAny()
	}
	if v.Choose(2) == 1 {
		w.s.onPlan = func(p *Plan) { p.Fields = []interface{}{} }
	}
	return w
}

func (w *world) q() string {
	w.nq++
	return "Q" + string(rune('A'+w.nq))
}

// quiet runs f, which has to fail without any traffic.
func (w *world) quiet(f func() error, msg string) {
	n, ops := len(w.s.reqs), w.s.ops
	err := f()
	v.Assert(err != nil, msg+": refused")
	v.Assert(len(w.s.reqs) == n && w.s.ops == ops, msg+": refused without traffic")
}

// failedWith asserts that err reports the server's failure for query q.
func (w *world) failedWith(err error, q, msg string) {
	v.Assert(err != nil, msg+": a failure is reported")
	v.Assert(err != io.EOF, msg+": a failure is not an end of rows")
	var inner error = err
	if e, ok := err.(*berr.Error); ok {
		inner = e.InnerMost()
	}
	f, ok := inner.(messages.FailureMessage)
	v.Assert(ok, msg+": the server's failure is the innermost error")
	ref.Same(f.Metadata, w.s.failMeta(q), msg+": failure metadata")
}

// ran asserts that the server ran q exactly once, and returns its plan.
func (w *world) ran(q, msg string) *Plan {
	n := 0
	var p *Plan
	for _, x := range w.s.plans {
		if x.Q == q {
			n++
			p = x
		}
	}
	v.Assert(n == 1, msg+": the query ran exactly once")
	return p
}

func (w *world) checkResult(r bolt.Result, err error, q, msg string) {
	p := w.ran(q, msg)
	if p.RunFail || p.PullFail {
		w.failedWith(err, q, msg)
		return
	}
	v.Assert(err == nil, msg+": succeeds")
	ref.Same(r.Metadata(), w.s.Plan(q).summary(), msg+": metadata")
}

func (w *world) checkRow(row []interface{}, q string, i int, msg string) {
	ref.Same(row, record(w.s.Plan(q), i), msg)
}

func (w *world) columns(c []string, q, msg string) {
	want := w.s.Plan(q).columns()
	v.Assert(len(c) == len(want), msg+": columns")
	for i := range c {
		v.AssertEqStr(c[i], want[i].(string), msg+": columns")
	}
}

// exec: conn.ExecNeo
func (w *world) exec() {
	q := w.q()
	run := func() error { _, err := w.c.ExecNeo(q, nil); return err }
	if w.closed || w.hasStmt {
		w.quiet(run, "ExecNeo")
		return
	}
	r, err := w.c.ExecNeo(q, nil)
	w.checkResult(r, err, q, "ExecNeo")
}

// query: conn.QueryNeo
func (w *world) query() {
	q := w.q()
	if w.closed || w.hasStmt {
		w.quiet(func() error { _, err := w.c.QueryNeo(q, nil); return err }, "QueryNeo")
		return
	}
	r, err := w.c.QueryNeo(q, nil)
	p := w.ran(q, "QueryNeo")
	if p.RunFail {
		w.failedWith(err, q, "QueryNeo")
		return
	}
	v.Assert(err == nil, "QueryNeo: succeeds")
	w.columns(r.Columns(), q, "QueryNeo")
	w.rows, w.rowsQ, w.pos, w.ended, w.endEr = r, q, 0, false, false
	w.hasStmt = true
}

// queryAll: conn.QueryNeoAll
func (w *world) queryAll() {
	q := w.q()
	if w.closed || w.hasStmt {
		w.quiet(func() error { _, _, _, err := w.c.QueryNeoAll(q, nil); return err }, "QueryNeoAll")
		return
	}
	data, meta, sum, err := w.c.QueryNeoAll(q, nil)
	p := w.ran(q, "QueryNeoAll")
	if p.RunFail || p.PullFail {
		w.failedWith(err, q, "QueryNeoAll")
		return
	}
	v.Assert(err == nil, "QueryNeoAll: succeeds")
	v.Assert(len(data) == p.N, "QueryNeoAll: number of rows")
	for i := range data {
		w.checkRow(data[i], q, i, "QueryNeoAll: row")
	}
	ref.Same(meta["fields"], w.s.Plan(q).columns(), "QueryNeoAll: fields")
	ref.Same(sum, w.s.Plan(q).summary(), "QueryNeoAll: summary")
}

// prepare: conn.PrepareNeo
func (w *world) prepare() {
	q := w.q()
	if w.closed || w.hasStmt {
		w.quiet(func() error { _, err := w.c.PrepareNeo(q); return err }, "PrepareNeo")
		return
	}
	st, err := w.c.PrepareNeo(q)
	v.Assert(err == nil, "PrepareNeo: succeeds")
	w.stmt, w.stmtQ, w.hasStmt = st, q, true
}

func (w *world) stmtExec() {
	if w.stmt == nil {
		w.noop()
		return
	}
	if !w.hasStmt || w.rows != nil {
		w.quiet(func() error { _, err := w.stmt.ExecNeo(nil); return err }, "Stmt.ExecNeo")
		return
	}
	// a statement may run again: tell the runs apart by removing the old plan
	w.forget(w.stmtQ)
	r, err := w.stmt.ExecNeo(nil)
	w.checkResult(r, err, w.stmtQ, "Stmt.ExecNeo")
}

func (w *world) forget(q string) {
	for i, p := range w.s.plans {
		if p.Q == q {
			w.s.plans = append(w.s.plans[:i:i], w.s.plans[i+1:]...)
			return
		}
	}
}

func (w *world) stmtQuery() {
	if w.stmt == nil {
		w.noop()
		return
	}
	if !w.hasStmt || w.rows != nil {
		w.quiet(func() error { _, err := w.stmt.QueryNeo(nil); return err }, "Stmt.QueryNeo")
		return
	}
	w.forget(w.stmtQ)
	r, err := w.stmt.QueryNeo(nil)
	p := w.ran(w.stmtQ, "Stmt.QueryNeo")
	if p.RunFail {
		w.failedWith(err, w.stmtQ, "Stmt.QueryNeo")
		return
	}
	v.Assert(err == nil, "Stmt.QueryNeo: succeeds")
	w.columns(r.Columns(), w.stmtQ, "Stmt.QueryNeo")
	w.rows, w.rowsQ, w.pos, w.ended, w.endEr = r, w.stmtQ, 0, false, false
}

func (w *world) next() {
	if w.rows == nil {
		w.noop()
		return
	}
	ops := w.s.ops
	row, meta, err := w.rows.NextNeo()
	p := w.s.Plan(w.rowsQ)
	switch {
	case w.ended:
		v.Assert(err != nil, "NextNeo after the end: no row")
		v.Assert(row == nil, "NextNeo after the end: no data")
		v.Assert(w.s.ops == ops, "NextNeo after the end: no traffic")
		v.Assert(w.endEr || err == io.EOF, "NextNeo after the end: io.EOF")
		v.Assert(!w.endEr || err != io.EOF, "NextNeo after a failure: not io.EOF")
	case w.pos < p.N:
		v.Assert(err == nil, "NextNeo: a row")
		w.checkRow(row, w.rowsQ, w.pos, "NextNeo: row")
		w.pos++
	case p.PullFail:
		w.failedWith(err, w.rowsQ, "NextNeo")
		w.ended, w.endEr = true, true
	default:
		v.Assert(err == io.EOF, "NextNeo: io.EOF at the end")
		v.Assert(row == nil, "NextNeo: no row at the end")
		ref.Same(meta, w.s.Plan(w.rowsQ).summary(), "NextNeo: summary")
		w.ended = true
	}
}

func (w *world) all() {
	if w.rows == nil || w.ended {
		w.noop()
		return
	}
	data, meta, err := w.rows.All()
	p := w.s.Plan(w.rowsQ)
	v.Assert(len(data) == p.N-w.pos, "All: number of rows")
	for i := range data {
		w.checkRow(data[i], w.rowsQ, w.pos+i, "All: row")
	}
	if p.PullFail {
		w.failedWith(err, w.rowsQ, "All")
		w.endEr = true
	} else {
		v.Assert(err == nil, "All: succeeds")
		ref.Same(meta, w.s.Plan(w.rowsQ).summary(), "All: summary")
	}
	w.ended = true
}

// rowsGone records that the open rows are closed.
func (w *world) rowsGone() {
	if w.rows != nil {
		r := w.rows
		w.used = append(w.used, r)
		if w.stmt == nil && w.pstmt == nil {
			w.hasStmt = false
		}
		w.rows = nil
	}
	if w.prows != nil {
		w.used = append(w.used, w.prows)
		if w.stmt == nil && w.pstmt == nil {
			w.hasStmt = false
		}
		w.prows = nil
	}
}

// pendingFail tells whether closing the open rows meets a failure.
func (w *world) pendingFail() (string, bool) {
	if w.rows != nil && !w.ended && w.s.Plan(w.rowsQ).PullFail {
		return w.rowsQ, true
	}
	if w.prows != nil && !w.ended {
		for i := w.pidx; i < len(w.prowsQ); i++ {
			p := w.s.Plan(w.prowsQ[i])
			if p != nil && (p.RunFail || p.PullFail) {
				return p.Q, true
			}
		}
	}
	return "", false
}

func (w *world) closed2(err error, msg string) {
	q, fails := w.pendingFail()
	if fails {
		// the failure of a discarded stream may be reported
		if err != nil {
			w.failedWith(err, q, msg)
		}
	} else {
		v.Assert(err == nil, msg+": succeeds")
	}
}

func (w *world) rowsClose() {
	if w.rows == nil {
		w.noop()
		return
	}
	w.closed2(w.rows.Close(), "Rows.Close")
	w.rowsGone()
}

func (w *world) stmtClose() {
	switch {
	case w.stmt != nil:
		w.closed2(w.stmt.Close(), "Stmt.Close")
		w.used = append(w.used, w.stmt)
	case w.pstmt != nil:
		w.closed2(w.pstmt.Close(), "PipelineStmt.Close")
		w.used = append(w.used, w.pstmt)
	default:
		w.noop()
		return
	}
	w.rowsGone()
	w.hasStmt = false
	w.stmt, w.pstmt = nil, nil
}

func (w *world) begin() {
	if w.closed || w.hasStmt || w.txOpen {
		w.quiet(func() error { _, err := w.c.Begin(); return err }, "Begin")
		return
	}
	w.forget("BEGIN")
	tx, err := w.c.Begin()
	if w.ran("BEGIN", "Begin").RunFail {
		w.failedWith(err, "BEGIN", "Begin")
		return
	}
	v.Assert(err == nil, "Begin: succeeds")
	v.Assert(w.s.tx, "Begin: the server has a transaction")
	w.tx, w.txOpen = tx, true
}

func (w *world) end(commit bool) {
	if w.tx == nil {
		w.noop()
		return
	}
	q, msg, f := "ROLLBACK", "Rollback", w.tx.Rollback
	if commit {
		q, msg, f = "COMMIT", "Commit", w.tx.Commit
	}
	if !w.txOpen {
		w.quiet(f, msg+" of a finished transaction")
		return
	}
	fq, fails := w.pendingFail()
	c0, r0 := w.s.commits, w.s.rollbacks
	w.forget("COMMIT")
	w.forget("ROLLBACK")
	err := f()
	w.txOpen = false
	w.stmtGone()
	v.Assert(!w.s.tx, msg+": the server has no transaction left")
	if commit && fails {
		v.Assert(err != nil, "Commit: open rows that fail are reported")
		w.failedWith(err, fq, "Commit")
		v.Assert(w.s.commits == c0, "Commit: not committed after a failure")
		v.Assert(w.s.rollbacks == r0+1, "Commit: rolled back after a failure")
		return
	}
	v.Assert((w.s.commits-c0 == 1) == commit, msg+": COMMIT is sent for Commit only")
	v.Assert((w.s.rollbacks-r0 == 1) == !commit, msg+": ROLLBACK is sent for Rollback only")
	if w.ran(q, msg).RunFail {
		w.failedWith(err, q, msg)
	} else {
		v.Assert(err == nil, msg+": succeeds")
	}
}

// stmtGone records that the connection closed the open statement.
func (w *world) stmtGone() {
	w.rowsGone()
	w.hasStmt = false
	// handles the user still has are closed
	if w.stmt != nil {
		w.used = append(w.used, w.stmt)
	}
	if w.pstmt != nil {
		w.used = append(w.used, w.pstmt)
	}
	w.stmt, w.pstmt = nil, nil
}

func (w *world) execPipeline() {
	q1, q2 := w.q(), w.q()
	if w.closed || w.hasStmt {
		w.quiet(func() error { _, err := w.c.ExecPipeline([]string{q1, q2}, nil, nil); return err }, "ExecPipeline")
		return
	}
	rs, err := w.c.ExecPipeline([]string{q1, q2}, nil, nil)
	w.checkPipeResults(rs, err, []string{q1, q2}, "ExecPipeline")
}

func (w *world) checkPipeResults(rs []bolt.Result, err error, qs []string, msg string) {
	for _, q := range qs {
		p := w.s.Plan(q)
		if p == nil {
			v.Fail(msg + ": every query ran")
		}
		if p.RunFail || p.PullFail {
			w.failedWith(err, q, msg)
			return
		}
	}
	v.Assert(err == nil, msg+": succeeds")
	v.Assert(len(rs) == len(qs), msg+": one result per query")
	for i, q := range qs {
		ref.Same(rs[i].Metadata(), w.s.Plan(q).summary(), msg+": metadata")
	}
}

func (w *world) queryPipeline() {
	q1, q2 := w.q(), w.q()
	if w.closed || w.hasStmt {
		w.quiet(func() error { _, err := w.c.QueryPipeline([]string{q1, q2}, nil, nil); return err }, "QueryPipeline")
		return
	}
	r, err := w.c.QueryPipeline([]string{q1, q2}, nil, nil)
	w.startPipe(r, err, []string{q1, q2}, "QueryPipeline")
	w.hasStmt = w.prows != nil
}

func (w *world) startPipe(r bolt.PipelineRows, err error, qs []string, msg string) {
	p := w.ran(qs[0], msg)
	if p.RunFail {
		w.failedWith(err, qs[0], msg)
		return
	}
	v.Assert(err == nil, msg+": succeeds")
	w.columns(r.Columns(), qs[0], msg)
	w.prows, w.prowsQ, w.pidx, w.pos, w.ended, w.endEr = r, qs, 0, 0, false, false
}

func (w *world) preparePipeline() {
	q1, q2 := w.q(), w.q()
	if w.closed || w.hasStmt {
		w.quiet(func() error { _, err := w.c.PreparePipeline(q1, q2); return err }, "PreparePipeline")
		return
	}
	st, err := w.c.PreparePipeline(q1, q2)
	v.Assert(err == nil, "PreparePipeline: succeeds")
	w.pstmt, w.pQ, w.hasStmt = st, []string{q1, q2}, true
}

func (w *world) pstmtExec() {
	if w.pstmt == nil {
		w.noop()
		return
	}
	if w.prows != nil {
		w.quiet(func() error { _, err := w.pstmt.ExecPipeline(nil, nil); return err }, "PipelineStmt.ExecPipeline")
		return
	}
	w.forget(w.pQ[0])
	w.forget(w.pQ[1])
	rs, err := w.pstmt.ExecPipeline(nil, nil)
	w.checkPipeResults(rs, err, w.pQ, "PipelineStmt.ExecPipeline")
}

func (w *world) pstmtQuery() {
	if w.pstmt == nil {
		w.noop()
		return
	}
	if w.prows != nil {
		w.quiet(func() error { _, err := w.pstmt.QueryPipeline(nil, nil); return err }, "PipelineStmt.QueryPipeline")
		return
	}
	w.forget(w.pQ[0])
	w.forget(w.pQ[1])
	r, err := w.pstmt.QueryPipeline(nil, nil)
	w.startPipe(r, err, w.pQ, "PipelineStmt.QueryPipeline")
}

func (w *world) pnext() {
	if w.prows == nil {
		w.noop()
		return
	}
	ops := w.s.ops
	row, meta, nextRows, err := w.prows.NextPipeline()
	q := w.prowsQ[w.pidx]
	p := w.s.Plan(q)
	switch {
	case w.ended:
		v.Assert(err != nil, "NextPipeline after the end: no row")
		v.Assert(row == nil && nextRows == nil, "NextPipeline after the end: no data")
		v.Assert(!w.endEr || err != io.EOF, "NextPipeline after a failure: not the end of rows")
		v.Assert(w.s.ops == ops, "NextPipeline after the end: no traffic")
	case w.pos < p.N:
		v.Assert(err == nil, "NextPipeline: a row")
		w.checkRow(row, q, w.pos, "NextPipeline: row")
		v.Assert(nextRows == nil, "NextPipeline: no next rows with a row")
		w.pos++
	case p.PullFail:
		w.failedWith(err, q, "NextPipeline")
		w.ended, w.endEr = true, true
	case w.pidx == len(w.prowsQ)-1:
		v.Assert(err == nil || err == io.EOF, "NextPipeline: no error at the end")
		v.Assert(row == nil && nextRows == nil, "NextPipeline: nothing at the end")
		w.ended = true
	default:
		nq := w.prowsQ[w.pidx+1]
		if w.s.Plan(nq).RunFail {
			w.failedWith(err, nq, "NextPipeline")
			w.ended, w.endEr = true, true
			return
		}
		v.Assert(err == nil && nextRows != nil, "NextPipeline: the next rows")
		v.Assert(row == nil, "NextPipeline: no row with the next rows")
		w.columns(nextRows.Columns(), nq, "NextPipeline")
		v.Assert(meta != nil, "NextPipeline: metadata")
		ref.Same(meta["fields"], w.s.Plan(nq).columns(), "NextPipeline: metadata")
		w.prows = nextRows
		w.pidx++
		w.pos = 0
	}
}

func (w *world) prowsClose() {
	if w.prows == nil {
		w.noop()
		return
	}
	w.closed2(w.prows.Close(), "PipelineRows.Close")
	w.rowsGone()
}

func (w *world) connClose() {
	_, fails := w.pendingFail()
	tx := w.txOpen
	c0, r0, n0 := w.s.commits, w.s.rollbacks, w.s.closed
	err := w.c.Close()
	if w.closed {
		v.Assert(err == nil, "Conn.Close again: succeeds")
		v.Assert(w.s.closed == n0, "Conn.Close again: the socket is not closed again")
		return
	}
	if !fails && !w.s.txFail {
		v.Assert(err == nil, "Conn.Close: succeeds")
	}
	if w.pooled {
		v.Assert(w.s.closed == 0, "Conn.Close: the pool keeps the socket")
	} else {
		v.Assert(w.s.closed == 1, "Conn.Close: the socket is closed once")
	}
	v.Assert(w.s.commits == c0, "Conn.Close: does not commit")
	v.Assert((w.s.rollbacks == r0+1) == tx, "Conn.Close: rolls back an open transaction")
	v.Assert(!w.s.tx, "Conn.Close: no transaction is left open")
	w.stmtGone()
	w.txOpen = false
	w.closed = true
}

// stale uses handles that are closed: closing again succeeds, nothing is sent.
func (w *world) stale() {
	ops := w.s.ops
	for _, h := range w.used {
		v.Assert(h.Close() == nil, "closing again succeeds")
		if r, ok := h.(bolt.Rows); ok {
			row, _, err := r.NextNeo()
			v.Assert(err != nil && row == nil, "closed rows give no row")
		}
		if r, ok := h.(bolt.PipelineRows); ok {
			row, _, nx, err := r.NextPipeline()
			v.Assert(err != nil && row == nil && nx == nil, "closed pipeline rows give no row")
		}
		if st, ok := h.(bolt.Stmt); ok {
			_, err := st.ExecNeo(nil)
			v.Assert(err != nil, "a closed statement does not run")
		}
		if st, ok := h.(bolt.Stmt); ok {
			_, err := st.QueryNeo(nil)
			v.Assert(err != nil, "a closed statement does not run")
		}
	}
	v.Assert(w.s.ops == ops, "closed handles cause no traffic")
}

// probe closes what is open and checks that the session still answers
// requests with their own responses.
func (w *world) probe() {
	if w.closed {
		w.exec()
		w.query()
		w.begin()
		v.Assert(len(w.s.out) == 0 || w.s.closed > 0, "nothing is left unread")
		return
	}
	w.s.fixed = true
	w.rowsClose()
	w.prowsClose()
	w.stmtClose()
	w.stale()
	v.Assert(len(w.s.out) == 0, "nothing is left unread")
	w.exec()
	w.queryAll()
	if w.txOpen {
		w.end(true)
	}
	w.connClose()
}
