package drv

import (
	"database/sql/driver"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"verifh/ref"
	"verifh/v"
)

// held is a connection taken from a pool.
type held struct {
	c    bolt.Conn
	s    *Server // the server it talks to, once known
	bad  bool    // its transport failed
	tx   bool
	rows bool
	live bool
}

// pworld is a pool and what it should look like.
type pworld struct {
	pool  bolt.DriverPool
	max   int
	ss    []*Server
	dials *int
	hs    []*held
	nq    int
}

func newPool(max, servers int) *pworld {
	w := &pworld{max: max}
	for i := 0; i < servers; i++ {
		s := newServer()
		s.id = i
		s.fixed = true
		w.ss = append(w.ss, s)
	}
	w.dials = dialTo(w.ss...)
	var err error
	w.pool, err = bolt.NewDriverPool(connStr, max)
	v.Assert(err == nil, "NewDriverPool: succeeds")
	v.Assert(*w.dials == 0, "NewDriverPool: connects lazily")
	return w
}

func (w *pworld) out() int {
	n := 0
	for _, h := range w.hs {
		if h.live {
			n++
		}
	}
	return n
}

// sockets asserts that at most max sockets are open.
func (w *pworld) sockets() {
	n := 0
	for i := 0; i < *w.dials && i < len(w.ss); i++ {
		s := w.ss[i]
		v.Assert(s.closed <= 1, "a socket is closed once")
		if s.closed == 0 {
			n++
		}
	}
	v.Assert(n <= w.max, "no more sockets than the pool's size")
}

// open takes a connection; it must be fresh: working, without a transaction
// or statement, and nobody else's.
func (w *pworld) open() *held {
	if w.out() == w.max {
		v.Assume(false) // it would wait
	}
	c, err := w.pool.OpenPool()
	v.Assert(err == nil, "OpenPool: succeeds")
	h := &held{c: c, live: true}
	w.hs = append(w.hs, h)
	w.use(h)
	v.Assert(!h.s.tx, "OpenPool: no transaction is left open")
	for _, o := range w.hs {
		v.Assert(o == h || !o.live || o.s != h.s, "OpenPool: nobody else's connection")
	}
	w.sockets()
	return h
}

// use runs a query on the connection.
func (w *pworld) use(h *held) {
	w.nq++
	q := "Q" + string(rune('A'+w.nq))
	ops := make([]int, len(w.ss))
	for i, s := range w.ss {
		ops[i] = s.ops
	}
	r, err := h.c.ExecNeo(q, nil)
	if !h.live {
		v.Assert(err != nil, "a connection given back refuses to work")
		refuses(h.c, "a connection given back")
		for i, s := range w.ss {
			v.Assert(s.ops == ops[i], "a connection given back causes no traffic")
		}
		return
	}
	if h.bad {
		v.Assert(err != nil, "a broken connection fails")
		return
	}
	if h.rows {
		v.Assert(err != nil, "a connection with open rows refuses another query")
		return
	}
	v.Assert(err == nil, "a connection from the pool works")
	n := 0
	for _, s := range w.ss {
		if p := s.Plan(q); p != nil {
			n++
			v.Assert(h.s == nil || h.s == s, "a connection keeps its server")
			h.s = s
			checkSum(r, p)
		}
	}
	v.Assert(n == 1, "the query ran once")
}

func checkSum(r bolt.Result, p *Plan) {
	x, ok := r.Metadata()["sum"].(string)
	v.Assert(ok, "the result of the query")
	v.AssertEqStr(x, p.Q, "the result of the query")
}

func (w *pworld) pick() *held {
	if len(w.hs) == 0 {
		v.Assume(false)
	}
	h := w.hs[v.Choose(len(w.hs))]
	return h
}

func (w *pworld) pickLive() *held {
	h := w.pick()
	v.Assume(h.live)
	return h
}

// steps of a pool

func (w *pworld) sUse() { w.use(w.pick()) }
func (w *pworld) sBegin() {
	h := w.pickLive()
	v.Assume(!h.bad && !h.tx && !h.rows)
	_, err := h.c.Begin()
	v.Assert(err == nil, "Begin: succeeds")
	h.tx = true
}
func (w *pworld) sQuery() {
	h := w.pickLive()
	v.Assume(!h.bad && !h.rows)
	_, err := h.c.QueryNeo("R", nil)
	v.Assert(err == nil, "QueryNeo: succeeds")
	h.rows = true
}

// sBreak loses the transport of a connection; the client notices at its next use.
func (w *pworld) sBreak() {
	h := w.pickLive()
	v.Assume(!h.bad && !h.rows)
	h.s.faultOp = h.s.ops
	h.s.fault = 0
	h.bad = true
	w.use(h)
}

// sLose is as sBreak, but the client does not notice before closing.
func (w *pworld) sLose() {
	h := w.pickLive()
	v.Assume(!h.bad && (h.tx || h.rows))
	h.s.faultOp = h.s.ops
	h.s.fault = v.Choose(2)
	h.bad = true
}
func (w *pworld) sClose() {
	h := w.pick()
	err := h.c.Close()
	if !h.live {
		v.Assert(err == nil, "Close again: succeeds")
	} else if !h.bad {
		v.Assert(err == nil, "Close: succeeds")
		v.Assert(h.s.closed == 0, "Close: the connection goes back to the pool")
		v.Assert(!h.s.tx, "Close: no transaction is left open")
		v.Assert(h.s.commits == 0, "Close: nothing is committed")
		v.Assert(len(h.s.out) == 0, "Close: nothing is left unread")
	} else if h.s.faulted {
		v.Assert(h.s.closed == 1, "Close: a broken connection is not kept")
	}
	h.live = false
	w.sockets()
}

// C19_Steps: a pool of 1..2 connections, every sequence of up to 4 (thorough 5) operations among taking a connection, using it, leaving a transaction or rows open, losing it and closing it (also twice). Then all connections of the pool can be taken and work.
func C19_Steps() {
	w := newPool(1+v.Choose(2), 8)
	ops := []func(){func() { w.open() }, w.sUse, w.sBegin, w.sQuery, w.sBreak, w.sLose, w.sClose}
	w.open()
	for i := 0; i < 4+v.Tier(); i++ {
		k := v.Choose(len(ops) + 1)
		if k == len(ops) {
			break
		}
		ops[k]()
	}
	w.full()
}

// full gives everything back, then takes all connections.
func (w *pworld) full() {
	for _, h := range w.hs {
		if h.live {
			h.c.Close()
			h.live = false
		}
		v.Assert(h.c.Close() == nil, "Close again: succeeds")
	}
	for i := 0; i < w.max; i++ {
		w.open()
	}
	w.sockets()
}

// C19_Dial: connecting fails in any way (dial, handshake, version, INIT refused): OpenPool fails, the socket is released, and the pool keeps its size: afterwards all its connections can be taken.
func C19_Dial() {
	w := newPool(1+v.Choose(2), 8)
	for i := 0; i < 1+v.Choose(2); i++ {
		s := w.ss[*w.dials]
		switch v.Choose(4) {
		case 0:
			s.faultOp = v.Choose(3)
			s.fault = v.Choose(2)
		case 1:
			s.version = []byte{0, 0, 0, 0}
		case 2:
			s.initResp = []byte{0xB1, 0x7F, 0xA0}
		case 3:
			s.initResp = []byte{0xB0, 0x7E}
		}
		_, err := w.pool.OpenPool()
		v.Assert(err != nil, "OpenPool: fails when connecting does")
		v.Assert(s.closed == 1, "OpenPool: the socket is released")
	}
	if v.Choose(2) == 0 {
		dial := v.Dial
		v.Dial = nil
		_, err := w.pool.OpenPool()
		v.Assert(err != nil, "OpenPool: fails when dialing does")
		v.Dial = dial
	}
	w.full()
}

// C19_Parse: a pool with a connection string that cannot be used fails on every OpenPool instead of waiting.
func C19_Parse() {
	w := newPool(1, 1)
	p, err := bolt.NewDriverPool("http://host", 1+v.Choose(2))
	if err != nil {
		return
	}
	for i := 0; i < 3; i++ {
		_, err := p.OpenPool()
		v.Assert(err != nil, "OpenPool: an unusable connection string")
	}
	v.Assert(*w.dials == 0, "OpenPool: no connection for an unusable connection string")
}

// refuses asserts that every call of the API fails.
func refuses(c bolt.Conn, msg string) {
	_, err := c.Begin()
	v.Assert(err != nil, msg+" refuses Begin")
	_, err = c.QueryNeo("X", nil)
	v.Assert(err != nil, msg+" refuses QueryNeo")
	_, _, _, err = c.QueryNeoAll("X", nil)
	v.Assert(err != nil, msg+" refuses QueryNeoAll")
	_, err = c.ExecPipeline([]string{"X"}, nil)
	v.Assert(err != nil, msg+" refuses ExecPipeline")
	_, err = c.QueryPipeline([]string{"X"}, nil)
	v.Assert(err != nil, msg+" refuses QueryPipeline")
	_, err = c.PrepareNeo("X")
	v.Assert(err != nil, msg+" refuses PrepareNeo")
	_, err = c.PreparePipeline("X")
	v.Assert(err != nil, msg+" refuses PreparePipeline")
}

// C19_Handles: statements, rows, pipelines and transactions of a connection that was given back (idle again or already in the hands of another user, with a transaction or rows of its own) do nothing to the connection: every call on them fails or does nothing, without traffic, and the new user is not disturbed.
func C19_Handles() {
	w := newPool(1, 2)
	h := w.open()
	var tx driver.Tx
	if v.Choose(2) == 1 {
		t, err := h.c.Begin()
		v.Assert(err == nil, "Begin: succeeds")
		tx = t
	}
	var st bolt.Stmt
	var pst bolt.PipelineStmt
	var rows bolt.Rows
	var prows bolt.PipelineRows
	var err error
	switch v.Choose(7) {
	case 1:
		st, err = h.c.PrepareNeo("S")
	case 2:
		st, err = h.c.PrepareNeo("S")
		if err == nil {
			rows, err = st.QueryNeo(nil)
		}
	case 3:
		rows, err = h.c.QueryNeo("S", nil)
	case 4:
		prows, err = h.c.QueryPipeline([]string{"S", "T"}, nil, nil)
	case 5:
		pst, err = h.c.PreparePipeline("S", "T")
	case 6:
		pst, err = h.c.PreparePipeline("S", "T")
		if err == nil {
			prows, err = pst.QueryPipeline(nil, nil)
		}
	}
	v.Assert(err == nil, "a connection from the pool works")
	v.Assert(h.c.Close() == nil, "Close: succeeds")
	h.live = false
	v.Assert(h.s.closed == 0 && !h.s.tx && len(h.s.out) == 0 && h.s.commits == 0, "Close: a clean connection goes back to the pool")
	var other *held
	var orows bolt.Rows
	var otx driver.Tx
	switch v.Choose(4) {
	case 1:
		other = w.open()
	case 2:
		other = w.open()
		otx, err = other.c.Begin()
		v.Assert(err == nil, "Begin: succeeds")
	case 3:
		other = w.open()
		orows, err = other.c.QueryNeo("O", nil)
		v.Assert(err == nil, "QueryNeo: succeeds")
	}
	ops := h.s.ops
	for i := 0; i < 2; i++ {
		if tx != nil {
			v.Assert(tx.Commit() != nil, "a transaction of a connection given back is over")
			v.Assert(tx.Rollback() != nil, "a transaction of a connection given back is over")
		}
		if rows != nil {
			row, _, err := rows.NextNeo()
			v.Assert(err != nil && row == nil, "rows of a connection given back have ended")
			_, _, err = rows.All()
			v.Assert(err != nil, "rows of a connection given back have ended")
			v.Assert(rows.Close() == nil, "closing again succeeds")
		}
		if prows != nil {
			row, _, nx, err := prows.NextPipeline()
			v.Assert(err != nil && row == nil && nx == nil, "rows of a connection given back have ended")
			v.Assert(prows.Close() == nil, "closing again succeeds")
		}
		if st != nil {
			_, err := st.ExecNeo(nil)
			v.Assert(err != nil, "a statement of a connection given back does not run")
			_, err = st.QueryNeo(nil)
			v.Assert(err != nil, "a statement of a connection given back does not run")
			v.Assert(st.Close() == nil, "closing again succeeds")
		}
		if pst != nil {
			_, err := pst.ExecPipeline(nil, nil)
			v.Assert(err != nil, "a statement of a connection given back does not run")
			_, err = pst.QueryPipeline(nil, nil)
			v.Assert(err != nil, "a statement of a connection given back does not run")
			v.Assert(pst.Close() == nil, "closing again succeeds")
		}
		v.Assert(h.c.Close() == nil, "Close again: succeeds")
		refuses(h.c, "a connection given back")
	}
	v.Assert(h.s.ops == ops, "handles of a connection given back cause no traffic")
	if orows != nil {
		row, _, err := orows.NextNeo()
		v.Assert(err == nil, "NextNeo: a row")
		ref.Same(row, record(h.s.Plan("O"), 0), "NextNeo: row")
	}
	if otx != nil {
		v.Assert(h.s.tx, "the other user's transaction is still open")
		v.Assert(otx.Commit() == nil && h.s.commits == 1, "Commit: succeeds")
	}
	if other != nil {
		v.Assert(other.c.Close() == nil, "Close: succeeds")
	}
	for _, x := range w.hs {
		x.live = false
	}
	w.hs = nil
	w.full()
}

// C19_Repeat: connections are taken and given back 40 (thorough 300) times over, in one of several states each time (idle, open transaction, open rows, lost, failed query): the pool keeps its size and never opens more sockets than that.
func C19_Repeat() {
	n := 40 + 260*v.Tier()
	w := newPool(1+v.Choose(2), n+4)
	state := v.Choose(6)
	for i := 0; i < n; i++ {
		h := w.open()
		switch state {
		case 1:
			_, err := h.c.Begin()
			v.Assert(err == nil, "Begin: succeeds")
		case 2:
			_, err := h.c.QueryNeo("R", nil)
			v.Assert(err == nil, "QueryNeo: succeeds")
		case 3:
			h.s.faultOp, h.s.fault = h.s.ops, 0
			h.bad = true
			w.use(h)
		case 4:
			h.s.faultOp, h.s.fault = h.s.ops+1, 1
			h.bad = true
			_, err := h.c.Begin()
			v.Assert(err != nil, "Begin: fails on a broken connection")
		case 5:
			h.s.onPlan = func(p *Plan) { p.RunFail = true }
			_, err := h.c.ExecNeo("F", nil)
			v.Assert(err != nil, "ExecNeo: a failure is reported")
			h.s.onPlan = nil
		}
		s := h.s
		err := h.c.Close()
		v.Assert(h.bad || err == nil, "Close: succeeds")
		v.Assert(h.bad == (s.closed == 1), "Close: only a broken connection is closed")
		h.live = false
		w.sockets()
	}
	w.full()
}

// C19_Big: all connections of a pool of 3..4 (thorough 6) are taken, left idle, with a transaction or rows open, or lost, and given back from any of them on, one of them twice; then all can be taken again, and the healthy ones are reused.
func C19_Big() {
	max := 3 + v.Choose(2+2*v.Tier())
	w := newPool(max, 3*max)
	for i := 0; i < max; i++ {
		w.open()
	}
	v.Assert(*w.dials == max, "one socket for each connection")
	odd, state := v.Choose(max), v.Choose(4)
	switch h := w.hs[odd]; state {
	case 1:
		_, err := h.c.Begin()
		v.Assert(err == nil, "Begin: succeeds")
	case 2:
		_, err := h.c.QueryNeo("R", nil)
		v.Assert(err == nil, "QueryNeo: succeeds")
	case 3:
		h.s.faultOp, h.s.fault = h.s.ops, v.Choose(2)
		h.bad = true
		w.use(h)
	}
	first, twice := v.Choose(max), v.Choose(max)
	for i := 0; i < max; i++ {
		h := w.hs[(first+i)%max]
		err := h.c.Close()
		v.Assert(h.bad || err == nil, "Close: succeeds")
		h.live = false
		if i == twice {
			v.Assert(h.c.Close() == nil, "Close again: succeeds")
		}
		if i == 0 && v.Choose(2) == 1 {
			// somebody takes the only one that is free
			w.open()
			k := len(w.hs) - 1
			v.Assert(w.hs[k].c.Close() == nil, "Close: succeeds")
			w.hs[k].live = false
		}
	}
	n := *w.dials
	w.full()
	if state != 3 {
		v.Assert(*w.dials == n && n == max, "healthy connections are reused")
	}
}

// poolSizes are sizes of pools.
var poolSizes = []int{1, 2, 5, 8, 9, 10, 11, 16, 17, 20, 25, 32, 33, 50, 64, 65, 100, 128, 129, 256, 300}

// C19_Sizes: pools of sizes up to 300: all connections can be taken, each on a socket of its own; given back in either order (one of them lost), all can be taken again, and only the lost one is replaced.
func C19_Sizes() {
	max := poolSizes[v.Choose(len(poolSizes))]
	w := newPool(max, max+1)
	for i := 0; i < max; i++ {
		w.open()
	}
	v.Assert(*w.dials == max, "one socket for each connection")
	lost := v.Choose(3) == 1
	if lost {
		h := w.hs[max/2]
		h.s.faultOp = h.s.ops
		h.bad = true
		w.use(h)
	}
	back := v.Choose(2) == 1
	for i := range w.hs {
		if back {
			i = max - 1 - i
		}
		h := w.hs[i]
		err := h.c.Close()
		v.Assert(h.bad || err == nil, "Close: succeeds")
		v.Assert(h.bad == (h.s.closed == 1), "Close: only a broken connection is closed")
		h.live = false
	}
	w.hs = nil
	for i := 0; i < max; i++ {
		w.open()
	}
	n := max
	if lost {
		n++
	}
	v.Assert(*w.dials == n, "healthy connections are reused")
	w.sockets()
}
