package drv

import "verifh/v"

// steps runs up to n operations picked from ops.
func (w *world) steps(n int, ops []func()) {
	for i := 0; i < n; i++ {
		k := v.Choose(len(ops) + 1)
		if k == len(ops) {
			return
		}
		w.strict = true
		ops[k]()
		w.strict = false
	}
}

// C11_Queries: every sequence of up to 4 (thorough 5) operations on one connection among Exec, Query, QueryAll, Next, All, Close of rows; 0..1 records per query, up to one failure anywhere; then a probe query must get its own answer.
func C11_Queries() {
	w := newWorld()
	w.s.maxRec = 1
	w.steps(4+v.Tier(), []func(){w.exec, w.query, w.queryAll, w.next, w.all, w.rowsClose})
	w.probe()
}

// C11_Statements: every sequence of up to 4 (thorough 5) operations among Prepare, statement Exec and Query, Next, Close of rows and statement.
func C11_Statements() {
	w := newWorld()
	w.s.maxRec = 1
	w.prepare()
	w.steps(4+v.Tier(), []func(){w.stmtExec, w.stmtQuery, w.next, w.rowsClose, w.stmtClose, w.prepare, w.exec})
	w.probe()
}

// C11_Mixed: every sequence of up to 5 (thorough 6) operations among Exec, Query, Prepare, statement Query and Exec, Next, All, Close of rows and of statements, without failures, 1..2 records per query.
func C11_Mixed() {
	w := newWorld()
	w.s.onPlan = func(p *Plan) { p.N = 1 + len(w.s.plans)%2 }
	w.steps(5+v.Tier(), []func(){w.exec, w.query, w.prepare, w.stmtExec, w.stmtQuery, w.next, w.all, w.rowsClose, w.stmtClose})
	w.s.onPlan = nil
	w.probe()
}

// C11_Context: every sequence of up to 3 (thorough 4) operations among Exec, Query, Prepare, statement Query and Exec, Next, Close of rows and of statements, on connections of drivers and pools, inside transactions, with and without columns.
func C11_Context() {
	w := newCtx()
	w.s.maxRec = 1
	w.steps(3+v.Tier(), []func(){w.exec, w.query, w.prepare, w.stmtExec, w.stmtQuery, w.next, w.rowsClose, w.stmtClose})
	w.probe()
}

// C11_Repeat: any one call of the API (with what it needs before and after) made 12 (thorough 40) times on one connection, the last one refused or not; every one gets its own answer.
func C11_Repeat() {
	w := newAny()
	w.s.fixed, w.sticky = true, true
	call := w.calls()[v.Choose(len(w.calls()))]
	n := 12 + 28*v.Tier()
	for i := 0; i < n; i++ {
		if i == n-1 {
			w.s.fixed = false
			w.s.maxRec, w.s.txFail = 1, true
		}
		call()
	}
	w.probe()
}
