package drv

import (
	"database/sql/driver"

	"verifh/v"
)

// C18_Close: a connection with anything open on it is closed, any one I/O operation fails in any of 7 ways while closing or in a call before it, the server may refuse the rollback and closing the socket may report an error: the socket is closed exactly once, and closing again does nothing.
func C18_Close() {
	w := newWorld()
	w.s.maxRec = 1
	w.s.txFail = true
	if v.Choose(2) == 0 {
		w.begin()
	}
	switch v.Choose(6) {
	case 1:
		w.prepare()
	case 2:
		w.prepare()
		w.stmtQuery()
	case 3:
		w.query()
		w.next()
	case 4:
		w.queryPipeline()
	case 5:
		w.preparePipeline()
		w.pstmtQuery()
		w.pnext()
	}
	c0 := w.s.commits
	if v.Choose(2) == 0 {
		w.s.faultOp = w.s.ops + v.Int(0, 8)
		w.s.fault = v.Choose(7)
		n := 2
		if w.tx != nil {
			n = 3
		}
		switch v.Choose(n) {
		case 1:
			// the caller sees the failure before closing
			if w.rows != nil {
				w.rows.NextNeo()
			} else if w.prows != nil {
				w.prows.NextPipeline()
			} else {
				w.c.ExecNeo("LAST", nil)
			}
		case 2:
			w.tx.Commit()
			c0 = w.s.commits
		}
	}
	if v.Choose(2) == 0 {
		w.s.closeErr = errClosed
	}
	tx := w.txOpen
	err := w.c.Close()
	v.Assert(w.s.closed == 1, "Close: the socket is closed once")
	v.Assert(w.s.commits == c0, "Close: nothing is committed")
	if tx && !w.s.faulted {
		v.Assert(!w.s.tx, "Close: the transaction is over")
	}
	if w.s.closeErr != nil {
		v.Assert(err != nil, "Close: an error closing the socket is reported")
	}
	ops := w.s.ops
	v.Assert(w.c.Close() == nil, "Close again: succeeds")
	v.Assert(w.s.closed == 1, "Close again: the socket is not closed again")
	w.closed, w.hasStmt = true, false
	w.exec()
	w.query()
	w.begin()
	w.prepare()
	v.Assert(w.s.ops == ops, "a closed connection causes no traffic")
}

// C18_Session: after every sequence of 3 (thorough 4) operations, Close succeeds, rolls back an open transaction and closes the socket once.
func C18_Session() {
	w := newWorld()
	w.s.maxRec = 1
	w.steps(3+v.Tier(), []func(){
		w.prepare, w.stmtQuery, w.exec, w.query, w.next, w.begin,
		func() { w.end(true) },
		w.queryPipeline, w.pnext, w.preparePipeline, w.pstmtQuery,
	})
	w.connClose()
	w.connClose()
	w.stale()
	w.probe()
}

// C18_Opened: the connection is closed right after it was opened with arbitrary answers to INIT, after queries that failed, or after a failed transaction: the socket is closed once.
func C18_Opened() {
	w := newWorld()
	w.s.maxRec, w.s.txFail = 1, true
	w.anyCall()
	w.connClose()
	v.Assert(w.s.closed == 1, "the socket is closed once")
	w.connClose()
	w.stale()
	v.Assert(w.s.closed == 1, "the socket is closed once")
}

// C18_Sql: the same through database/sql: closing the connection with statements, rows and a transaction open.
func C18_Sql() {
	s := newServer()
	s.fixed = true
	c := sqlOpen(s)
	tx := v.Choose(2) == 1
	if tx {
		_, err := c.Begin()
		v.Assert(err == nil, "Begin: succeeds")
	}
	switch v.Choose(4) {
	case 1:
		_, err := c.Prepare("Q")
		v.Assert(err == nil, "Prepare: succeeds")
	case 2:
		st, err := c.Prepare("Q")
		v.Assert(err == nil, "Prepare: succeeds")
		_, err = st.Query(nil)
		v.Assert(err == nil, "Query: succeeds")
	case 3:
		_, err := c.(driver.Queryer).Query("Q", nil)
		v.Assert(err == nil, "Query: succeeds")
	}
	if v.Choose(2) == 1 {
		s.closeErr = errClosed
	}
	err := c.Close()
	v.Assert((err != nil) == (s.closeErr != nil), "Close: reports an error closing the socket")
	v.Assert(s.closed == 1, "Close: the socket is closed once")
	v.Assert(s.commits == 0 && !s.tx && (s.rollbacks == 1) == tx, "Close: an open transaction is rolled back")
	v.Assert(c.Close() == nil, "Close again: succeeds")
	v.Assert(s.closed == 1, "Close again: the socket is not closed again")
}
