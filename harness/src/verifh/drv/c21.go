package drv

import (
	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"verifh/v"
)

func newClosable(max, servers int) (*pworld, bolt.ClosableDriverPool) {
	w := newPool(max, servers)
	p, err := bolt.NewClosableDriverPool(connStr, max)
	v.Assert(err == nil, "NewClosableDriverPool: succeeds")
	w.pool = p
	return w, p
}

// released asserts that every socket ever opened is closed.
func (w *pworld) released() {
	for i := 0; i < *w.dials && i < len(w.ss); i++ {
		v.Assert(w.ss[i].closed >= 1, "every socket is closed")
	}
}

func refused(p bolt.DriverPool) {
	c, err := p.OpenPool()
	v.Assert(err != nil, "OpenPool: refused when the pool is closed")
	v.Assert(c == nil, "OpenPool: no connection when the pool is closed")
}

// C21_Close: a pool of 1..2 (thorough 3) connections is closed with each of them never used, idle, in use, with a transaction or rows open, or lost: taking a connection is refused afterwards, connections still in use fail without wrong results, and when they are given back every socket is closed. Closing again is harmless.
func C21_Close() {
	max := 1 + v.Choose(2+v.Tier())
	w, p := newClosable(max, 2*max)
	for i := 0; i < max; i++ {
		switch v.Choose(6) {
		case 1: // idle
			h := w.open()
			v.Assert(h.c.Close() == nil, "Close: succeeds")
			h.live = false
		case 2: // in use
			w.open()
		case 3:
			h := w.open()
			_, err := h.c.Begin()
			v.Assert(err == nil, "Begin: succeeds")
			h.tx = true
		case 4:
			h := w.open()
			_, err := h.c.QueryNeo("R", nil)
			v.Assert(err == nil, "QueryNeo: succeeds")
			h.rows = true
		case 5: // lost
			h := w.open()
			h.s.faultOp = h.s.ops
			h.bad = true
			w.use(h)
		}
	}
	bad := false
	for i := 0; i < *w.dials; i++ {
		// closing a socket may fail, which is no reason to leave others open
		if w.ss[i].closed == 0 && v.Choose(2) == 1 {
			w.ss[i].closeErr = errClosed
			bad = true
		}
	}
	if err := p.Close(); !bad {
		v.Assert(err == nil, "pool Close: succeeds")
	}
	refused(p)
	for _, s := range w.ss {
		if s.closed == 0 {
			for _, h := range w.hs {
				v.Assert(h.live || h.s != s, "pool Close: idle sockets are closed")
			}
		}
	}
	n := *w.dials
	for _, h := range w.hs {
		if h.live && !h.rows {
			_, err := h.c.ExecNeo("late", nil)
			v.Assert(err != nil, "a connection of a closed pool fails")
		}
		h.c.Close()
		h.live = false
		h.c.Close()
		w.use(h)
	}
	w.released()
	v.Assert(p.Close() == nil, "pool Close again: succeeds")
	refused(p)
	v.Assert(*w.dials == n, "a closed pool does not connect")
	for _, s := range w.ss {
		v.Assert(s.commits == 0, "nothing is committed")
	}
}

// C21_Waiting: the pool is closed while another user takes, uses and gives back connections, under every schedule with up to 2 (thorough 3) preemptions: nobody waits forever, and every socket is closed in the end.
func C21_Waiting() {
	max := 1
	w, p := newClosable(max, 4)
	guard(w.ss)
	first, err := p.OpenPool()
	v.Assert(err == nil, "OpenPool: succeeds")
	give := v.Choose(2) == 0
	v.Concurrent(2 + v.Tier())
	together(
		func() {
			c, err := p.OpenPool()
			if err != nil {
				return
			}
			v.Assert(give, "OpenPool: waits for a connection")
			if r, err := c.ExecNeo("A", nil); err == nil {
				x, ok := r.Metadata()["sum"].(string)
				v.Assert(ok && x == "A", "ExecNeo: its own result")
			}
			c.Close()
		},
		func() {
			if give {
				first.Close()
			}
		},
		func() { p.Close() },
	)
	if !give {
		first.Close()
	}
	w.released()
	refused(p)
}

// C21_Opening: the pool is closed while connections are being established and used.
func C21_Opening() {
	w, p := newClosable(1+v.Choose(2), 4)
	guard(w.ss)
	v.Concurrent(2 + v.Tier())
	together(
		func() {
			c, err := p.OpenPool()
			if err != nil {
				return
			}
			if r, err := c.ExecNeo("A", nil); err == nil {
				x, ok := r.Metadata()["sum"].(string)
				v.Assert(ok && x == "A", "ExecNeo: its own result")
			}
			c.Close()
		},
		func() { p.Close() },
	)
	w.released()
	refused(p)
}

// C21_Twice: two users close the pool at the same time.
func C21_Twice() {
	w, p := newClosable(1, 2)
	h := w.open()
	if v.Choose(2) == 0 {
		h.c.Close()
		h.live = false
	}
	v.Concurrent(2)
	together(func() { p.Close() }, func() { p.Close() })
	refused(p)
	h.c.Close()
	w.released()
}

// C21_Sizes: pools of sizes up to 300 are closed with all, half or none of their connections in use, the others idle or never used: the idle sockets are closed at once, the others at the latest when they are given back, and no connection can be taken.
func C21_Sizes() {
	max := poolSizes[v.Choose(len(poolSizes))]
	w, p := newClosable(max, max)
	taken := []int{0, 1, (max + 1) / 2, max}[v.Choose(4)]
	idle := []int{0, max}[v.Choose(2)]
	if idle < taken {
		idle = taken
	}
	for i := 0; i < idle; i++ {
		w.open()
	}
	for i := taken; i < idle; i++ {
		v.Assert(w.hs[i].c.Close() == nil, "Close: succeeds")
		w.hs[i].live = false
	}
	v.Assert(p.Close() == nil, "pool Close: succeeds")
	refused(p)
	for i := taken; i < idle; i++ {
		v.Assert(w.ss[i].closed >= 1, "pool Close: idle sockets are closed")
	}
	for i := 0; i < taken; i++ {
		_, err := w.hs[i].c.ExecNeo("late", nil)
		v.Assert(err != nil, "a connection of a closed pool fails")
		w.hs[i].c.Close()
	}
	w.released()
	refused(p)
	v.Assert(p.Close() == nil, "pool Close again: succeeds")
	v.Assert(*w.dials == idle, "a closed pool does not connect")
}
