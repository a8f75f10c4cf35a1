package drv

import (
	"io"

	"verifh/v"
)

// calls are the calls that the server may refuse, with what they need before
// and after.
func (w *world) calls() []func() {
	return []func(){
		w.exec,
		func() {
			w.query()
			w.drain()
		},
		w.queryAll,
		func() {
			w.prepare()
			w.stmtExec()
			w.stmtClose()
		},
		func() {
			w.prepare()
			w.stmtQuery()
			w.drain()
			w.stmtClose()
		},
		func() {
			w.begin()
			w.end(w.way(2) == 1)
		},
		w.execPipeline,
		func() {
			w.queryPipeline()
			for i := 0; i < 3; i++ {
				w.pnext()
			}
			w.prowsClose()
		},
		func() {
			w.preparePipeline()
			w.pstmtExec()
			w.pstmtQuery()
			w.pnext()
			w.stmtClose()
		},
	}
}

// anyCall makes one of the calls.
func (w *world) anyCall() {
	fs := w.calls()
	fs[v.Choose(len(fs))]()
}

// way picks one of n ways to go on, the same one again when sticky.
func (w *world) way(n int) int {
	if w.sticky && w.stuck > 0 {
		return w.stuck - 1
	}
	k := v.Choose(n)
	w.stuck = k + 1
	return k
}

// drain reads, collects or drops the open rows.
func (w *world) drain() {
	switch w.way(3) {
	case 0:
		w.all()
	case 1:
		for w.rows != nil && !w.ended {
			w.next()
		}
		w.next()
	}
	w.rowsClose()
}

func (w *world) acked() {
	v.Assert(w.s.acks == w.s.failures, "every failure is acknowledged once")
}

// C12_Failures: any call of the API, any one (thorough: two) of the requests refused with arbitrary failure metadata; every later call of any kind still gets its own answer.
func C12_Failures() {
	w := newWorld()
	w.s.maxRec, w.s.canFail, w.s.txFail = 1, 1+v.Tier(), true
	w.s.failExtra = map[string]interface{}{"message": v.Str(3), "n": int64(v.I8()) & 7}
	w.anyCall()
	w.acked()
	w.anyCall()
	w.acked()
	v.Assert(w.s.resets == 0, "no reset while acknowledging works")
	w.probe()
}

// C12_Pooled: any call of the API refused on a connection of a pool, new or used before: reported, acknowledged once, and the connection goes on.
func C12_Pooled() {
	w := newAny()
	w.s.maxRec, w.s.canFail, w.s.txFail = 1, 1, true
	w.anyCall()
	w.acked()
	w.probe()
}

// C12_AckRefused: as C12_Failures, and the server refuses to take the acknowledgement: the session is reset, the failure is reported and later calls get their own answers.
func C12_AckRefused() {
	w := newWorld()
	w.s.maxRec = 1
	w.s.ackFails = 1
	w.exec()
	if w.s.failures > 0 {
		v.Assert(w.s.resets == 1, "the session is reset when a failure cannot be acknowledged")
		v.Reach("reset")
	}
	w.s.ackFails = 0
	w.s.canFail = 1
	w.anyCall()
	w.probe()
}

// C12_Metadata: failures with any metadata (none, no code, a code or message that is null or no string, arbitrary values, nested values, 20 entries) refusing any call: all of it reaches the caller.
func C12_Metadata() {
	w := newWorld()
	m := map[string]interface{}{}
	switch v.Choose(8) {
	case 1:
		m["message"], m["m"] = v.Str(1), int64(3)
	case 2:
		m["code"], m["message"] = nil, v.Str(2)
	case 3:
		m["code"], m["message"] = v.Str(2), nil
	case 4:
		m["code"], m["x"] = int64(v.I8()&7), v.Str(1)
	case 5:
		m["code"] = map[string]interface{}{"a": []interface{}{v.Str(1), v.Bool()}}
		m["message"] = []interface{}{v.I8() > 3}
	case 6:
		m["code"], m["message"], m[v.Str(1)] = "Neo.TransientError.X.Y", "", v.Bool()
	case 7:
		for i := 0; i < 20; i++ {
			m["k"+string(rune('a'+i))] = int64(i)
		}
	}
	w.s.failWith = m
	w.s.maxRec, w.s.canFail, w.s.txFail = 1, 1, true
	w.anyCall()
	w.acked()
	w.probe()
}

// C12_InTransaction: failures inside a transaction leave it open for rolling back; a commit after a failure reports that nothing was committed.
func C12_InTransaction() {
	w := newAny()
	w.s.maxRec = 1
	w.begin()
	switch v.Choose(4) {
	case 0:
		w.exec()
	case 1:
		w.query()
		w.drain()
	case 2:
		w.execPipeline()
	case 3:
		w.queryAll()
	}
	w.acked()
	v.Assert(w.s.tx, "the transaction is still open")
	w.s.fixed = true
	w.exec()
	w.end(v.Choose(2) == 1)
	w.acked()
	w.probe()
}

// C12_ResetRefused: the server refuses a request, the acknowledgement and the reset (with a failure or with an answer that makes no sense): the call fails, the session is given up, the socket is released once, and every later call fails without traffic.
func C12_ResetRefused() {
	w := newAny()
	w.s.maxRec = 1
	w.s.ackFails = 1
	w.s.resetBad = 1 + v.Choose(3)
	var err error
	switch v.Choose(5) {
	case 0:
		_, err = w.c.ExecNeo("Q", nil)
	case 1:
		_, _, _, err = w.c.QueryNeoAll("Q", nil)
	case 2:
		w.s.txFail = true
		_, err = w.c.Begin()
	case 3:
		_, err = w.c.ExecPipeline([]string{"Q", "R"}, nil, nil)
	case 4:
		st, e := w.c.PrepareNeo("Q")
		v.Assert(e == nil, "PrepareNeo: succeeds")
		_, err = st.ExecNeo(nil)
	}
	if w.s.failures == 0 {
		v.Assert(err == nil, "succeeds without a failure")
		return
	}
	v.Reach("given up")
	v.Assert(err != nil, "a failure is reported")
	v.Assert(err != io.EOF, "a failure is not an end of rows")
	ops := w.s.ops
	_, err = w.c.ExecNeo("P", nil)
	v.Assert(err != nil, "a session that is given up does not run queries")
	_, err = w.c.Begin()
	v.Assert(err != nil, "a session that is given up does not begin transactions")
	v.Assert(w.s.ops == ops, "a session that is given up causes no traffic")
	w.c.Close()
	v.Assert(w.s.closed == 1, "the socket is released once")
	v.Assert(w.s.ops == ops, "a session that is given up causes no traffic")
}

// C12_Pipeline: a pipeline of 1..5 queries of which any one (thorough: two) is refused when run or pulled, executed or read to that point or closed early: the failure of that query is reported and the connection goes on.
func C12_Pipeline() {
	w := newWorld()
	n := 1 + v.Choose(5)
	bad, when := v.Choose(n), v.Choose(2)
	k := 0
	w.s.onPlan = func(p *Plan) {
		p.N = k % 2
		if k == bad {
			p.RunFail, p.PullFail = when == 0, when == 1
		}
		k++
	}
	var qs []string
	for i := 0; i < n; i++ {
		qs = append(qs, w.q())
	}
	params := make([]map[string]interface{}, n)
	if v.Choose(2) == 0 {
		rs, err := w.c.ExecPipeline(qs, params...)
		w.checkPipeResults(rs, err, qs[:bad+1], "ExecPipeline")
	} else {
		r, err := w.c.QueryPipeline(qs, params...)
		w.startPipe(r, err, qs, "QueryPipeline")
		w.hasStmt = w.prows != nil
		stop := v.Choose(2*n + 1)
		for i := 0; i < stop && w.prows != nil && !w.ended; i++ {
			w.pnext()
		}
		w.prowsClose()
	}
	v.Assert(len(w.s.plans) == bad+1, "the queries after the failure do not run")
	w.acked()
	w.s.onPlan = nil
	w.s.canFail = 0
	w.probe()
}

// C12_Many: one of several calls made 5 (thorough 8) times on one connection, any two (thorough: three) of them refused: each failure is reported and acknowledged once, and every other call gets its own answer.
func C12_Many() {
	w := newAny()
	fails := 2 + v.Tier()
	w.s.onPlan = func(p *Plan) {
		p.N = 1
		if fails > 0 {
			switch v.Choose(3) {
			case 1:
				p.RunFail = true
				fails--
			case 2:
				p.PullFail = true
				fails--
			}
		}
	}
	k := v.Choose(5)
	for i := 0; i < 5+3*v.Tier(); i++ {
		switch k {
		case 0:
			w.exec()
		case 1:
			w.queryAll()
		case 2:
			w.query()
			w.rowsClose()
		case 3:
			if i == 0 {
				w.prepare()
			}
			w.stmtExec()
		case 4:
			w.query()
			w.next()
			w.next()
			w.rowsClose()
		}
		w.acked()
	}
	w.s.onPlan = nil
	w.probe()
}

// C12_Repeated: the same call refused 20 (thorough 40) times in a row on one connection, when it is run or pulled, inside or outside a transaction: each failure is reported and acknowledged once, and the session is not reset.
func C12_Repeated() {
	w := newCtx()
	when, k := v.Choose(2), v.Choose(4)
	w.s.onPlan = func(p *Plan) {
		p.N = 1
		p.RunFail, p.PullFail = when == 0, when == 1
	}
	for i := 0; i < 20+20*v.Tier(); i++ {
		switch k {
		case 0:
			w.exec()
		case 1:
			w.queryAll()
		case 2:
			w.query()
			w.next()
			w.next()
			w.rowsClose()
		case 3:
			if i == 0 {
				w.prepare()
			}
			w.stmtExec()
		}
		w.acked()
	}
	v.Assert(w.s.resets == 0, "the session is not reset")
	w.s.onPlan = nil
	w.probe()
}

// C12_LongPipeline: a pipeline of 8, 16 or 33 (thorough: and 100) queries of which the first, second, a middle or the last one is refused when run or pulled, executed or read to that point or closed early: all answers that were skipped are taken off the connection.
func C12_LongPipeline() {
	w := newWorld()
	n := []int{8, 16, 33, 100}[v.Choose(3+v.Tier())]
	bad, when := []int{0, 1, n / 2, n - 1}[v.Choose(4)], v.Choose(2)
	k := 0
	w.s.onPlan = func(p *Plan) {
		p.N = k % 2
		if k == bad {
			p.RunFail, p.PullFail = when == 0, when == 1
		}
		k++
	}
	var qs []string
	for i := 0; i < n; i++ {
		qs = append(qs, w.q())
	}
	params := make([]map[string]interface{}, n)
	if v.Choose(2) == 0 {
		rs, err := w.c.ExecPipeline(qs, params...)
		w.checkPipeResults(rs, err, qs[:bad+1], "ExecPipeline")
	} else {
		r, err := w.c.QueryPipeline(qs, params...)
		w.startPipe(r, err, qs, "QueryPipeline")
		w.hasStmt = w.prows != nil
		stop := []int{0, 2, 1000}[v.Choose(3)]
		for i := 0; i < stop && w.prows != nil && !w.ended; i++ {
			w.pnext()
		}
		w.prowsClose()
	}
	w.acked()
	v.Assert(w.s.resets == 0, "the session is not reset")
	w.s.onPlan = nil
	w.s.canFail = 0
	w.probe()
}
