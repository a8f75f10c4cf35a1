package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type gor struct {
	id    int
	top   *frame
	depth int
	wake  chan struct{}
	ready func() bool // nil: runnable
	why   string
	done  bool
	vc    vclock
	name  string
}

type sched struct {
	p        *Path
	gs       []*gor
	cur      *gor
	killed   bool
	fin      chan *pathEnd
	ended    bool
	preempts int
	wg       sync.WaitGroup
	maxG     int
}

type killSig struct{}

type vclock []int

func (v *vclock) at(i int) int {
	if i < len(*v) {
		return (*v)[i]
	}
	return 0
}
func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}
func (v *vclock) tick(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}
func (v vclock) copy() vclock { return append(vclock(nil), v...) }

// exec runs the harness entry under the scheduler and returns the outcome.
func (p *Path) exec(entry *CFunc) *pathEnd {
	s := &sched{p: p, fin: make(chan *pathEnd, 1)}
	p.sch = s
	g := &gor{id: 0, wake: make(chan struct{}, 1), name: "main"}
	g.vc.tick(0)
	s.gs = append(s.gs, g)
	s.cur = g
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		s.body(g, func() {
			p.callFn(nil, entry, nil, nil)
		}, true)
	}()
	end := <-s.fin
	s.killed = true
	for _, x := range s.gs {
		if !x.done {
			select {
			case x.wake <- struct{}{}:
			default:
			}
		}
	}
	s.wg.Wait()
	return end
}

func (s *sched) report(e *pathEnd) {
	if s.ended {
		return
	}
	s.ended = true
	s.killed = true
	s.fin <- e
}

func (s *sched) body(g *gor, f func(), main bool) {
	defer func() {
		g.done = true
		e := recover()
		switch e := e.(type) {
		case nil:
			if main {
				s.report(&pathEnd{kind: "ok"})
				return
			}
			if s.killed {
				return
			}
			// hand the baton on
			func() {
				defer func() {
					if r := recover(); r != nil {
						switch r := r.(type) {
						case *pathEnd:
							s.report(r)
						case killSig:
						default:
							s.report(&pathEnd{kind: "unsupported", msg: fmt.Sprint("internal: ", r)})
						}
					}
				}()
				n := s.pick(nil)
				if n == nil {
					s.deadlock()
				}
				s.cur = n
				n.wake <- struct{}{}
			}()
		case killSig:
		case *pathEnd:
			if e.site == "" && e.kind == "violation" {
				e.site = s.p.stack
			}
			s.report(e)
		case *ipanic:
			s.report(&pathEnd{kind: "violation", msg: "uncaught " + e.msg, site: e.stack})
		case unsupported:
			s.report(&pathEnd{kind: "unsupported", msg: e.msg, site: s.p.stackTrace()})
		default:
			s.report(&pathEnd{kind: "unsupported", msg: fmt.Sprintf("internal error: %v at %s\n%s", e, s.p.stackTrace(), debugStack())})
		}
	}()
	f()
}

func (s *sched) deadlock() {
	var sb strings.Builder
	for _, g := range s.gs {
		if !g.done {
			fmt.Fprintf(&sb, "[goroutine %d (%s): %s] ", g.id, g.name, g.why)
		}
	}
	panic(&pathEnd{kind: "violation", msg: "deadlock: every goroutine is blocked: " + sb.String(), site: s.p.stackTrace()})
}

func (s *sched) runnable() []*gor {
	var out []*gor
	for _, g := range s.gs {
		if g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			out = append(out, g)
		}
	}
	return out
}

// pick chooses the next goroutine to run among the runnable ones.
func (s *sched) pick(exclude *gor) *gor {
	var rs []*gor
	for _, g := range s.runnable() {
		if g != exclude {
			rs = append(rs, g)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	return rs[s.p.choose(len(rs), "sched")]
}

// switchTo hands the baton to n and waits to get it back.
func (s *sched) switchTo(n *gor) {
	me := s.cur
	if n == me {
		return
	}
	s.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if s.killed {
		panic(killSig{})
	}
	s.cur = me
}

// syncPoint: a place where another goroutine may be scheduled.
func (p *Path) syncPoint() {
	s := p.sch
	if len(s.gs) == 1 || s.preempts >= p.preempt {
		return
	}
	rs := s.runnable()
	if len(rs) <= 1 {
		return
	}
	// order: current first
	sort.SliceStable(rs, func(i, j int) bool { return rs[i] == s.cur && rs[j] != s.cur })
	k := p.choose(len(rs), "preempt")
	if rs[k] != s.cur {
		s.preempts++
		s.switchTo(rs[k])
	}
}

func (p *Path) block(why string, ready func() bool) {
	if ready() {
		return
	}
	s := p.sch
	g := s.cur
	g.ready, g.why = ready, why
	n := s.pick(nil)
	if n == nil {
		s.deadlock()
	}
	s.switchTo(n)
	g.ready = nil
}

func (p *Path) spawn(fr *frame, d deferred) {
	s := p.sch
	if len(s.gs) >= 16 {
		p.finish("bound", "more than 16 goroutines")
	}
	g := &gor{id: len(s.gs), wake: make(chan struct{}, 1)}
	if d.fv != nil && d.fv.fn != nil {
		g.name = d.fv.fn.String()
	}
	g.vc = s.cur.vc.copy()
	g.vc.tick(g.id)
	s.cur.vc.tick(s.cur.id)
	s.gs = append(s.gs, g)
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		<-g.wake
		if s.killed {
			g.done = true
			return
		}
		s.cur = g
		s.body(g, func() {
			if d.b != nil {
				p.builtin(nil, d.b, d.args, d.call)
			} else {
				p.callFV(nil, d.fv, d.args)
			}
		}, false)
	}()
	p.syncPoint()
}

// ---- channels ----

type ChanV struct {
	cap    int
	buf    []Value
	bufVC  []vclock
	closed bool
	et     types.Type
	recvq  []*waiter
	sendq  []*waiter
	nsend  int
	recvVC []vclock
	clVC   vclock
}

type waiter struct {
	v    Value
	vc   vclock
	done bool
	ok   bool
	g    *gor
	dead bool
}

func popW(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.dead {
			return w
		}
	}
	return nil
}

func hasW(q []*waiter) bool {
	for _, w := range q {
		if !w.dead {
			return true
		}
	}
	return false
}

func (p *Path) canSend(c *ChanV) bool {
	return c.closed || hasW(c.recvq) || len(c.buf) < c.cap
}
func (p *Path) canRecv(c *ChanV) bool {
	return len(c.buf) > 0 || hasW(c.sendq) || c.closed
}

func (p *Path) trySend(c *ChanV, v Value) bool {
	g := p.sch.cur
	if c.closed {
		p.rtpanicPlain("send on closed channel")
	}
	if w := popW(&c.recvq); w != nil {
		w.v, w.ok, w.done = v, true, true
		w.vc = g.vc.copy()
		g.vc.tick(g.id)
		return true
	}
	if len(c.buf) < c.cap {
		if k := c.nsend - c.cap; k >= 0 && k < len(c.recvVC) {
			g.vc.join(c.recvVC[k])
		}
		c.nsend++
		c.buf = append(c.buf, v)
		c.bufVC = append(c.bufVC, g.vc.copy())
		g.vc.tick(g.id)
		return true
	}
	return false
}

func (p *Path) tryRecv(c *ChanV) (Value, bool, bool) {
	g := p.sch.cur
	if len(c.buf) > 0 {
		v := c.buf[0]
		g.vc.join(c.bufVC[0])
		c.buf, c.bufVC = c.buf[1:], c.bufVC[1:]
		c.recvVC = append(c.recvVC, g.vc.copy())
		g.vc.tick(g.id)
		if w := popW(&c.sendq); w != nil {
			c.nsend++
			c.buf = append(c.buf, w.v)
			c.bufVC = append(c.bufVC, w.vc)
			w.done = true
		}
		return v, true, true
	}
	if w := popW(&c.sendq); w != nil {
		w.done = true
		g.vc.join(w.vc)
		return w.v, true, true
	}
	if c.closed {
		g.vc.join(c.clVC)
		return zero(c.et), false, true
	}
	return Value{}, false, false
}

func (p *Path) rtpanicPlain(msg string) { p.rtpanic(msg) }

func (p *Path) chanSend(fr *frame, c *ChanV, v Value) {
	p.syncPoint()
	if c == nil {
		p.block("send on nil channel", func() bool { return false })
	}
	if p.trySend(c, v) {
		return
	}
	g := p.sch.cur
	w := &waiter{v: v, vc: g.vc.copy(), g: g}
	g.vc.tick(g.id)
	c.sendq = append(c.sendq, w)
	p.block("channel send", func() bool { return w.done || c.closed })
	if !w.done {
		p.rtpanicPlain("send on closed channel")
	}
}

func (p *Path) chanRecv(fr *frame, c *ChanV) (Value, bool) {
	p.syncPoint()
	if c == nil {
		p.block("receive on nil channel", func() bool { return false })
	}
	if v, ok, got := p.tryRecv(c); got {
		return v, ok
	}
	g := p.sch.cur
	w := &waiter{g: g}
	c.recvq = append(c.recvq, w)
	p.block("channel receive", func() bool { return w.done || c.closed })
	if w.done {
		g.vc.join(w.vc)
		return w.v, w.ok
	}
	w.dead = true
	g.vc.join(c.clVC)
	return zero(c.et), false
}

func (p *Path) chanClose(fr *frame, c *ChanV) {
	p.syncPoint()
	if c == nil {
		p.rtpanicPlain("close of nil channel")
	}
	if c.closed {
		p.rtpanicPlain("close of closed channel")
	}
	g := p.sch.cur
	c.closed = true
	c.clVC = g.vc.copy()
	g.vc.tick(g.id)
}

func (cc *compiler) selectInstr(in *ssa.Select) instrFn {
	d := cc.reg(in)
	type st struct {
		c, v opnd
		send bool
		et   types.Type
	}
	var sts []st
	for _, s := range in.States {
		x := st{c: cc.op(s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Send != nil {
			x.v = cc.op(s.Send)
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	return func(fr *frame) {
		p := fr.p
		p.syncPoint()
		chans := make([]*ChanV, len(sts))
		vals := make([]Value, len(sts))
		for i := range sts {
			chans[i] = fr.get(&sts[i].c).x.(*ChanV)
			if sts[i].send {
				vals[i] = fr.get(&sts[i].v)
			}
		}
		result := func(idx int, ok bool, v Value) {
			t := TupleV{cu(uint64(int64(idx))), cb(ok)}
			for i := range sts {
				if sts[i].send {
					continue
				}
				if i == idx {
					t = append(t, v)
				} else {
					t = append(t, zero(sts[i].et))
				}
			}
			fr.r[d] = Value{x: t}
		}
		readyIdx := func() []int {
			var r []int
			for i := range sts {
				if chans[i] == nil {
					continue
				}
				if sts[i].send && p.canSend(chans[i]) || !sts[i].send && p.canRecv(chans[i]) {
					r = append(r, i)
				}
			}
			return r
		}
		rs := readyIdx()
		if len(rs) == 0 {
			if !blocking {
				result(-1, false, Value{})
				return
			}
			p.block("select", func() bool { return len(readyIdx()) > 0 })
			rs = readyIdx()
		}
		i := rs[p.choose(len(rs), "select")]
		if sts[i].send {
			p.trySend(chans[i], vals[i])
			result(i, false, Value{})
			return
		}
		v, ok, _ := p.tryRecv(chans[i])
		result(i, ok, v)
	}
}

// ---- mutexes ----

type mutexState struct {
	locked  bool
	readers int
	vc      vclock
	rvc     vclock
	owner   int
	count   int64 // WaitGroup
	done    bool  // Once
	val     Value
}

func (p *Path) mtx(v Value) *mutexState {
	pt := v.x.(*Ptr)
	if pt == nil {
		p.rtpanic("invalid memory address or nil pointer dereference")
	}
	// key on the identity of the aggregate so that &s.mu and the promoted receiver agree
	var k ptrKey
	if s, ok := p.slot(pt).x.(*StructV); ok {
		k = ptrKey{c: s}
	} else {
		k = pt.key()
	}
	m := p.mutexes[k]
	if m == nil {
		m = &mutexState{}
		p.mutexes[k] = m
	}
	return m
}

func (p *Path) lock(v Value) {
	p.syncPoint()
	m := p.mtx(v)
	p.block("mutex lock", func() bool { return !m.locked && m.readers == 0 })
	m.locked = true
	m.owner = p.sch.cur.id
	p.sch.cur.vc.join(m.vc)
	p.sch.cur.vc.join(m.rvc)
}

func (p *Path) unlock(v Value) {
	m := p.mtx(v)
	if !m.locked {
		panic(&pathEnd{kind: "violation", msg: "fatal error: sync: unlock of unlocked mutex", site: p.stackTrace()})
	}
	g := p.sch.cur
	m.vc = g.vc.copy()
	g.vc.tick(g.id)
	m.locked = false
	p.syncPoint()
}

func (p *Path) rlock(v Value) {
	p.syncPoint()
	m := p.mtx(v)
	p.block("rwmutex rlock", func() bool { return !m.locked })
	m.readers++
	p.sch.cur.vc.join(m.vc)
}

func (p *Path) runlock(v Value) {
	m := p.mtx(v)
	if m.readers <= 0 {
		panic(&pathEnd{kind: "violation", msg: "fatal error: sync: RUnlock of unlocked RWMutex", site: p.stackTrace()})
	}
	g := p.sch.cur
	m.rvc.join(g.vc)
	g.vc.tick(g.id)
	m.readers--
	p.syncPoint()
}

// acqrel: sequentially consistent atomic on an address.
func (p *Path) acqrel(v Value) {
	p.syncPoint()
	m := p.mtx(v)
	g := p.sch.cur
	g.vc.join(m.vc)
	m.vc = g.vc.copy()
	g.vc.tick(g.id)
}

// ---- race detection (happens-before) ----

type shadow struct {
	wg, wc int
	wpos   string
	rd     map[int]int
	rpos   map[int]string
}

type raceState struct {
	sh map[ptrKey]*shadow
}

func (p *Path) raceAccess(pt *Ptr, write bool) {
	if len(p.sch.gs) == 1 {
		// still record so that later goroutines see earlier writes (always ordered by go)
		return
	}
	switch c := pt.c.(type) {
	case *SArr:
		k := ptrKey{c: c}
		if pt.idx.conc() {
			k.i = pt.idx.u
		}
		p.raceKey(k, write)
		return
	case *Box, *StructV, *GArr:
		p.raceVal(p.slot(pt), ptrKey{pt.c, uint64(pt.i)<<32 ^ pt.idx.u}, write)
	}
}

func (p *Path) raceVal(v *Value, k ptrKey, write bool) {
	if s, ok := v.x.(*StructV); ok {
		for i := range s.f {
			p.raceVal(&s.f[i], ptrKey{s, uint64(i) << 32}, write)
		}
		return
	}
	p.raceKey(k, write)
}

func (p *Path) raceObj(o any, write bool) {
	if len(p.sch.gs) == 1 {
		return
	}
	p.raceKey(ptrKey{c: o}, write)
}

// raceRange records an access to n bytes of an array (bounded: the first 32
// and the last one).
func (p *Path) raceRange(a *SArr, off, n Value, write, force bool) {
	if p.race == nil || p.noRace != 0 || len(p.sch.gs) == 1 || !off.conc() || !n.conc() || n.u == 0 {
		return
	}
	if fr := p.curFrame(); !force && fr != nil && fr.fn.harness {
		return
	}
	for i := uint64(0); i < n.u && i < 32; i++ {
		p.raceKey2(ptrKey{c: a, i: off.u + i}, write)
	}
	p.raceKey2(ptrKey{c: a, i: off.u + n.u - 1}, write)
}

func (p *Path) raceKey(k ptrKey, write bool) {
	// The harness stands for a network whose ends synchronize by themselves;
	// only accesses by the code under test count.
	if fr := p.curFrame(); fr != nil && fr.fn.harness {
		return
	}
	p.raceKey2(k, write)
}

func (p *Path) raceKey2(k ptrKey, write bool) {
	s := p.race.sh[k]
	if s == nil {
		s = &shadow{wg: -1}
		p.race.sh[k] = s
	}
	g := p.sch.cur
	here := func() string {
		if fr := p.curFrame(); fr != nil {
			return fr.fn.name + " " + p.eng.posOf(fr)
		}
		return "?"
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.at(s.wg) {
		p.finish("violation", fmt.Sprintf("data race: write at %s is concurrent with access at %s", s.wpos, here()))
	}
	if write {
		for r, c := range s.rd {
			if r != g.id && c > g.vc.at(r) {
				p.finish("violation", fmt.Sprintf("data race: read at %s is concurrent with write at %s", s.rpos[r], here()))
			}
		}
		s.wg, s.wc, s.wpos = g.id, g.vc.at(g.id), here()
		s.rd, s.rpos = nil, nil
		return
	}
	if s.rd == nil {
		s.rd, s.rpos = map[int]int{}, map[int]string{}
	}
	s.rd[g.id] = g.vc.at(g.id)
	s.rpos[g.id] = here()
}
