package drv

import (
	"io"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"verifh/v"
)

// C14_Conn: pipelines of two queries run on the connection, every sequence of up to 3 (thorough 5) operations, 0..1 records per query, one failure anywhere.
func C14_Conn() {
	w := newWorld()
	w.s.maxRec = 1
	w.steps(3+2*v.Tier(), []func(){w.execPipeline, w.queryPipeline, w.pnext, w.prowsClose, w.exec})
	w.probe()
}

// C14_Stmt: the same for a prepared pipeline, which runs again and again.
func C14_Stmt() {
	w := newWorld()
	w.s.maxRec = 1
	w.preparePipeline()
	w.steps(4+v.Tier(), []func(){w.pstmtExec, w.pstmtQuery, w.pnext, w.prowsClose, w.stmtClose, w.preparePipeline})
	w.probe()
}

// C14_Walk: a pipeline of 1..4 queries with 0..2 records each is read to the end: every row of every query in order, then the end.
func C14_Walk() {
	w := newAny()
	n := 1 + v.Choose(3+v.Tier())
	var qs []string
	for i := 0; i < n; i++ {
		qs = append(qs, w.q())
	}
	params := make([]map[string]interface{}, n)
	if v.Choose(2) == 0 {
		r, err := w.c.QueryPipeline(qs, params...)
		w.startPipe(r, err, qs, "QueryPipeline")
		w.hasStmt = w.prows != nil
	} else {
		st, err := w.c.PreparePipeline(qs...)
		v.Assert(err == nil, "PreparePipeline: succeeds")
		w.pstmt, w.pQ, w.hasStmt = st, qs, true
		r, err := st.QueryPipeline(params...)
		w.startPipe(r, err, qs, "PipelineStmt.QueryPipeline")
	}
	for w.prows != nil && !w.ended {
		w.pnext()
	}
	w.pnext()
	w.probe()
}

// C14_Exec: a pipeline of 0..4 queries gives one result per query, in order.
func C14_Exec() {
	w := newAny()
	w.s.maxRec = 1
	n := v.Choose(4 + v.Tier())
	var qs []string
	for i := 0; i < n; i++ {
		qs = append(qs, w.q())
	}
	rs, err := w.c.ExecPipeline(qs, make([]map[string]interface{}, n)...)
	w.checkPipeResults(rs, err, qs, "ExecPipeline")
	w.probe()
}

// C14_Counts: a number of parameter sets other than the number of queries, and a query pipeline without queries, are refused without traffic, and the connection stays usable.
func C14_Counts() {
	w := newWorld()
	n, m := v.Choose(4), v.Choose(4)
	var qs []string
	for i := 0; i < n; i++ {
		qs = append(qs, w.q())
	}
	params := make([]map[string]interface{}, m)
	switch v.Choose(4) {
	case 0:
		v.Assume(n != m)
		w.quiet(func() error { _, err := w.c.ExecPipeline(qs, params...); return err }, "ExecPipeline with the wrong number of parameters")
	case 1:
		v.Assume(n != m || n == 0)
		w.quiet(func() error { _, err := w.c.QueryPipeline(qs, params...); return err }, "QueryPipeline with the wrong number of parameters")
	case 2:
		v.Assume(n != m || n == 0)
		st, err := w.c.PreparePipeline(qs...)
		v.Assert(err == nil, "PreparePipeline: succeeds")
		w.quiet(func() error { _, err := st.QueryPipeline(params...); return err }, "QueryPipeline with the wrong number of parameters")
		v.Assert(st.Close() == nil, "PipelineStmt.Close: succeeds")
	case 3:
		v.Assume(n != m)
		st, err := w.c.PreparePipeline(qs...)
		v.Assert(err == nil, "PreparePipeline: succeeds")
		w.quiet(func() error { _, err := st.ExecPipeline(params...); return err }, "ExecPipeline with the wrong number of parameters")
		v.Assert(st.Close() == nil, "PipelineStmt.Close: succeeds")
	}
	w.probe()
}

// C14_BadParams: one query of the pipeline has parameters that cannot be encoded: the pipeline fails and the connection stays usable.
func C14_BadParams() {
	w := newAny()
	w.s.maxRec = 1
	n := 1 + v.Choose(3)
	bad := v.Choose(n)
	var qs []string
	params := make([]map[string]interface{}, n)
	for i := 0; i < n; i++ {
		qs = append(qs, w.q())
	}
	params[bad] = map[string]interface{}{"x": struct{}{}}
	switch v.Choose(4) {
	case 0:
		_, err := w.c.ExecPipeline(qs, params...)
		v.Assert(err != nil, "ExecPipeline: parameters that cannot be encoded are refused")
	case 1:
		_, err := w.c.QueryPipeline(qs, params...)
		v.Assert(err != nil, "QueryPipeline: parameters that cannot be encoded are refused")
	case 2:
		st, err := w.c.PreparePipeline(qs...)
		v.Assert(err == nil, "PreparePipeline: succeeds")
		_, err = st.ExecPipeline(params...)
		v.Assert(err != nil, "ExecPipeline: parameters that cannot be encoded are refused")
		w.pstmt, w.pQ, w.hasStmt = st, qs, true
	case 3:
		st, err := w.c.PreparePipeline(qs...)
		v.Assert(err == nil, "PreparePipeline: succeeds")
		_, err = st.QueryPipeline(params...)
		v.Assert(err != nil, "QueryPipeline: parameters that cannot be encoded are refused")
		w.pstmt, w.pQ, w.hasStmt = st, qs, true
	}
	v.Assert(w.s.Plan(qs[bad]) == nil, "the query that cannot be encoded does not run")
	w.probe()
}

// C14_OldRows: rows of an earlier query of the pipeline are used after the pipeline moved on: they give no row of another query, and closing them leaves the connection usable.
func C14_OldRows() {
	w := newAny()
	w.s.maxRec, w.s.canFail = 1, 0
	onConn := v.Choose(2) == 0
	if onConn {
		w.queryPipeline()
	} else {
		w.preparePipeline()
		w.pstmtQuery()
	}
	var first bolt.PipelineRows = w.prows
	for w.prows == first && !w.ended {
		w.pnext()
	}
	v.Assert(w.prows != first, "the pipeline moves on")
	row, _, nx, err := first.NextPipeline()
	v.Assert(row == nil && nx == nil && err != nil, "rows that ended give no row")
	switch v.Choose(3) {
	case 0:
		v.Assert(first.Close() == nil, "closing rows that ended succeeds")
		v.Assert(len(w.s.out) == 0, "nothing is left unread")
		if onConn {
			w.hasStmt = false
			w.prows = nil
		} else {
			w.rowsGone()
		}
	case 1:
		w.pnext()
		w.prowsClose()
		v.Assert(first.Close() == nil, "closing rows that ended succeeds")
	case 2:
		if onConn {
			w.prowsClose()
		} else {
			w.stmtClose()
		}
		v.Assert(first.Close() == nil, "closing rows that ended succeeds")
		_, _, _, err := first.NextPipeline()
		v.Assert(err != nil && err != io.ErrUnexpectedEOF, "closed rows give no row")
	}
	w.probe()
}

// C14_Long: a pipeline of 5..8 (thorough 12) queries with 0, 1 or 2 records in turn, executed or read to the end or closed at any point, twice over: nothing is lost, repeated or left behind.
func C14_Long() {
	w := newWorld()
	k := 0
	off := v.Choose(3)
	w.s.onPlan = func(p *Plan) {
		p.N = (k + off) % 3
		k++
	}
	n := 5 + v.Choose(4)*(1+v.Tier())
	var qs []string
	for i := 0; i < n; i++ {
		qs = append(qs, w.q())
	}
	params := make([]map[string]interface{}, n)
	st, err := w.c.PreparePipeline(qs...)
	v.Assert(err == nil, "PreparePipeline: succeeds")
	w.pstmt, w.pQ, w.hasStmt = st, qs, true
	for i := 0; i < 2; i++ {
		k = 0
		for _, q := range qs {
			w.forget(q)
		}
		if v.Choose(2) == 0 {
			rs, err := st.ExecPipeline(params...)
			w.checkPipeResults(rs, err, qs, "PipelineStmt.ExecPipeline")
			continue
		}
		r, err := st.QueryPipeline(params...)
		w.startPipe(r, err, qs, "PipelineStmt.QueryPipeline")
		stop := []int{0, 1, 3, 7, 100}[v.Choose(5)]
		for j := 0; j < stop && !w.ended; j++ {
			w.pnext()
		}
		w.prowsClose()
	}
	w.s.onPlan = nil
	w.s.canFail = 0
	w.probe()
}
