package drv

import (
	"database/sql/driver"

	"verifh/v"
)

// C16_Lifecycle: every sequence of 3 (thorough 4) operations of the whole API, with the connection closed at any point and closed handles used again after every step.
func C16_Lifecycle() {
	w := newWorld()
	w.s.maxRec = 1
	ops := []func(){
		w.prepare, w.stmtExec, w.stmtQuery, w.stmtClose,
		w.exec, w.query, w.queryAll, w.next, w.rowsClose,
		w.begin,
		func() { w.end(true) },
		func() { w.end(false) },
		w.execPipeline, w.queryPipeline, w.preparePipeline, w.pstmtQuery, w.pstmtExec, w.pnext, w.prowsClose,
		w.connClose,
	}
	for i := range ops {
		f := ops[i]
		ops[i] = func() {
			f()
			w.stale()
		}
	}
	w.steps(3+v.Tier(), ops)
	w.probe()
}

// C16_Busy: a statement, rows or a pipeline that is open (just opened, partly read, read to its end, or failed) on a connection of a driver or a pool, inside or outside a transaction: everything that would start other work is refused without traffic, and the open one goes on unharmed.
func C16_Busy() {
	w := newAny()
	w.s.maxRec = 1
	if v.Choose(2) == 1 {
		w.s.fixed = true
		w.begin()
		w.s.fixed = false
	}
	switch v.Choose(5) {
	case 0:
		w.prepare()
	case 1:
		w.prepare()
		w.stmtQuery()
	case 2:
		w.query()
	case 3:
		w.queryPipeline()
	case 4:
		w.preparePipeline()
		w.pstmtQuery()
	}
	for n := v.Choose(4); n > 0; n-- {
		w.next()
		w.pnext()
	}
	w.exec()
	w.query()
	w.queryAll()
	w.prepare()
	w.preparePipeline()
	w.execPipeline()
	w.queryPipeline()
	w.begin()
	if w.rows != nil {
		w.stmtExec()
		w.stmtQuery()
	}
	if w.prows != nil {
		w.pstmtExec()
		w.pstmtQuery()
	}
	w.next()
	w.pnext()
	w.probe()
}

// C16_Closed: whatever was open, after Close every call of the API is refused without touching the socket, and nothing panics.
func C16_Closed() {
	w := newAny()
	w.s.maxRec = 1
	w.begin()
	switch v.Choose(6) {
	case 0:
	case 1:
		w.prepare()
	case 2:
		w.prepare()
		w.stmtQuery()
	case 3:
		w.query()
		w.next()
	case 4:
		w.queryPipeline()
		w.pnext()
	case 5:
		w.preparePipeline()
		w.pstmtQuery()
	}
	st, pst := w.stmt, w.pstmt
	w.connClose()
	w.stale()
	ops := w.s.ops
	w.exec()
	w.query()
	w.queryAll()
	w.prepare()
	w.preparePipeline()
	w.execPipeline()
	w.queryPipeline()
	w.begin()
	w.end(true)
	w.end(false)
	if st != nil {
		_, err := st.ExecNeo(nil)
		v.Assert(err != nil, "a statement of a closed connection does not run")
		_, err = st.QueryNeo(nil)
		v.Assert(err != nil, "a statement of a closed connection does not run")
	}
	if pst != nil {
		_, err := pst.ExecPipeline(nil, nil)
		v.Assert(err != nil, "a statement of a closed connection does not run")
		_, err = pst.QueryPipeline(nil, nil)
		v.Assert(err != nil, "a statement of a closed connection does not run")
	}
	w.connClose()
	v.Assert(w.s.ops == ops, "a closed connection causes no traffic")
}

// C16_Sql: the same through database/sql: statements, rows and transactions used after they, or the connection, were closed.
func C16_Sql() {
	s := newServer()
	s.fixed = true
	c := sqlOpen(s)
	var tx driver.Tx
	var st driver.Stmt
	var r driver.Rows
	var err error
	if v.Choose(2) == 1 {
		tx, err = c.Begin()
		v.Assert(err == nil, "Begin: succeeds")
	}
	if v.Choose(2) == 1 {
		st, err = c.Prepare("Q")
		v.Assert(err == nil, "Prepare: succeeds")
		r, err = st.Query(nil)
	} else {
		r, err = c.(driver.Queryer).Query("Q", nil)
	}
	v.Assert(err == nil, "Query: succeeds")
	dest := make([]driver.Value, 3)
	busy := func(msg string) {
		ops := s.ops
		_, err := c.Begin()
		v.Assert(err != nil, msg+": Begin is refused")
		_, err = c.Prepare("X")
		v.Assert(err != nil, msg+": Prepare is refused")
		_, err = c.(driver.Execer).Exec("X", nil)
		v.Assert(err != nil, msg+": Exec is refused")
		_, err = c.(driver.Queryer).Query("X", nil)
		v.Assert(err != nil, msg+": Query is refused")
		if st != nil {
			_, err = st.Exec(nil)
			v.Assert(err != nil, msg+": the statement does not run")
			_, err = st.Query(nil)
			v.Assert(err != nil, msg+": the statement does not run")
		}
		v.Assert(s.ops == ops, msg+": no traffic")
	}
	busy("open rows")
	how := v.Choose(3)
	switch how {
	case 0:
		v.Assert(r.Close() == nil, "Rows.Close: succeeds")
	case 1:
		if st != nil {
			v.Assert(st.Close() == nil, "Stmt.Close: succeeds")
		} else {
			v.Assert(r.Close() == nil, "Rows.Close: succeeds")
		}
	case 2:
		v.Assert(c.Close() == nil, "Close: succeeds")
	}
	ops := s.ops
	err = r.Next(dest)
	v.Assert(err != nil, "closed rows give no row")
	v.Assert(r.Close() == nil, "closing again succeeds")
	if st != nil && how > 0 {
		v.Assert(st.Close() == nil, "closing again succeeds")
		_, err = st.Exec(nil)
		v.Assert(err != nil, "a closed statement does not run")
		_, err = st.Query(nil)
		v.Assert(err != nil, "a closed statement does not run")
	}
	v.Assert(s.ops == ops, "closed handles cause no traffic")
	if how == 2 {
		busy("closed connection")
		if tx != nil {
			v.Assert(tx.Commit() != nil && tx.Rollback() != nil, "a transaction of a closed connection is over")
		}
		v.Assert(c.Close() == nil, "closing again succeeds")
		v.Assert(s.closed == 1 && s.ops == ops, "a closed connection causes no traffic")
	} else if tx != nil {
		v.Assert(tx.Commit() == nil, "Commit: succeeds")
		ops = s.ops
		v.Assert(tx.Commit() != nil && tx.Rollback() != nil, "a finished transaction is over")
		v.Assert(s.ops == ops && s.commits == 1, "a finished transaction causes no traffic")
	}
}
