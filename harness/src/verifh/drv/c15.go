package drv

import (
	"database/sql/driver"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"verifh/ref"
	"verifh/v"
)

// C15_Steps: every sequence of 4 (thorough 5) operations on one connection among Begin, Commit, Rollback, Exec, Query, Next and Close of rows; 0..1 records, one failure anywhere including in BEGIN, COMMIT and ROLLBACK. The server must see exactly the transactions the caller asked for.
func C15_Steps() {
	w := newWorld()
	w.s.maxRec, w.s.txFail = 1, true
	w.begin()
	w.steps(4+v.Tier(), []func(){
		w.begin,
		func() { w.end(true) },
		func() { w.end(false) },
		w.exec, w.query, w.next, w.rowsClose,
	})
	w.finish()
}

// finish ends an open transaction, then probes.
func (w *world) finish() {
	if w.txOpen {
		w.s.fixed, w.s.txFail = true, false
		w.end(v.Choose(2) == 1)
	}
	w.probe()
}

// C15_Statements: the same with prepared statements and pipelines open inside the transaction.
func C15_Statements() {
	w := newWorld()
	w.s.maxRec, w.s.txFail = 1, true
	w.begin()
	w.steps(3+v.Tier(), []func(){
		w.prepare, w.stmtQuery, w.stmtExec, w.next, w.stmtClose,
		w.queryPipeline, w.pnext,
		func() { w.end(true) },
		func() { w.end(false) },
	})
	w.finish()
}

// C15_Close: a connection that is closed inside a transaction rolls it back and never commits it.
func C15_Close() {
	w := newAny()
	w.s.maxRec = 1
	w.begin()
	w.steps(2+v.Tier(), []func(){w.exec, w.query, w.next, w.prepare, w.stmtQuery, w.queryPipeline, func() { w.end(true) }})
	w.connClose()
	w.probe()
}

// C15_Two: handles of transactions that ended do nothing to a later transaction.
func C15_Two() {
	w := newAny()
	w.s.maxRec, w.s.txFail = 1, true
	var old []driver.Tx
	for i := 0; i < 2+v.Tier(); i++ {
		w.begin()
		if !w.txOpen {
			continue
		}
		for _, t := range old {
			f := t.Commit
			if v.Choose(2) == 0 {
				f = t.Rollback
			}
			w.quiet(f, "a finished transaction")
		}
		w.exec()
		old = append(old, w.tx)
		w.end(v.Choose(2) == 1)
	}
	w.probe()
}

// C15_Odd: one answer to BEGIN, COMMIT or ROLLBACK or to its PULL_ALL is not success but ignored, a record, a value that is no message, or 1..2 arbitrary bytes: the call is an error, never a success.
func C15_Odd() {
	s := newServer()
	s.fixed = true
	c := open(s)
	k := v.Choose(4)
	s.garbageAt = s.nsent + k
	s.lateEOF = true
	switch v.Choose(5) {
	case 0:
		s.garbage = []byte{0xB0, 0x7E}
	case 1:
		s.garbage = ref.Enc(nil, messages.NewRecordMessage([]interface{}{v.Str(1)}))
	case 2:
		s.garbage = ref.Enc(nil, map[string]interface{}{v.Str(1): v.Bool()})
	case 3:
		s.garbage = v.Bytes(v.Concrete(v.Int(1, 2)))
	case 4:
		s.garbage = ref.Enc(nil, messages.NewFailureMessage(map[string]interface{}{"code": v.Str(1)}))
		s.tolerant = true
	}
	tx, err := c.Begin()
	if k < 2 {
		v.Assert(err != nil, "Begin: only what the server confirmed is a success")
		s.lateEOF = true
		c.Close()
		v.Assert(s.closed == 1, "Close: the socket is released")
		return
	}
	v.Assert(err == nil, "Begin: succeeds")
	if v.Choose(2) == 0 {
		v.Assert(tx.Commit() != nil, "Commit: only what the server confirmed is a success")
	} else {
		v.Assert(tx.Rollback() != nil, "Rollback: only what the server confirmed is a success")
	}
	c.Close()
	v.Assert(s.closed == 1, "Close: the socket is released")
}

// C15_Many: 4 (thorough 8) transactions in turn on one connection, each with 0..1 queries, each committed or rolled back, one of them refused at any point: the server sees exactly those.
func C15_Many() {
	w := newAny()
	w.s.maxRec, w.s.txFail = 0, true
	n := 4 + 4*v.Tier()
	commits, rollbacks := 0, 0
	for i := 0; i < n; i++ {
		w.begin()
		if !w.txOpen {
			continue
		}
		if i%2 == 0 {
			w.exec()
		}
		c := v.Choose(2) == 1
		if c {
			commits++
		} else {
			rollbacks++
		}
		w.end(c)
	}
	v.Assert(w.s.commits == commits && w.s.rollbacks == rollbacks, "the transactions the caller asked for")
	w.probe()
}
