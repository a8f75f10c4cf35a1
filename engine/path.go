package main

import (
	"fmt"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A decision taken at a symbolic choice point.
type dkind uint8

const (
	dFalse dkind = iota
	dTrue
	dEQ     // concretise: term == v
	dNE     // concretise: term != v (another round follows)
	dFalseI // implied by the path condition
	dTrueI
)

type decision struct {
	k dkind
	v uint64
}

type workItem struct {
	h      *Harness
	prefix []decision
	model  *Model
}

// Input is one value requested by the harness (in order), for replay.
type Input struct {
	Kind  string // "u" scalar, "b" bytes
	Name  string
	t     *Term // scalar
	w     uint8
	n     Value // bytes length
	sn    *snap
	fixed bool
}

type obs struct {
	label string
	kind  string
	v     Value
	w     uint8
	sn    *snap
	off   Value
	n     Value
	s     string
}

// outcomes that end a path
type pathEnd struct {
	kind string // "ok", "assume", "violation", "bound", "unsupported", "kill"
	msg  string
	site string
}

type Path struct {
	eng    *Engine
	h      *Harness
	sv     *Solver
	prefix []decision
	dpos   int
	trace  []decision
	pc     []*Term
	pcv    [][]uint64
	known  map[[2]uint64]bool
	model  *Model
	varsOf map[*Term][]uint64
	nvar   int
	inputs []Input
	obsv   []obs
	reach  map[string]bool
	steps  int64
	maxSt  int64
	depth  int

	globals  []*Ptr
	pkgState map[*ssa.Package]int
	globBusy map[*ssa.Global]bool
	mutexes  map[ptrKey]*mutexState
	clock    uint64
	logCount int
	uniq     []uniqV
	allocLim uint64
	allocTot uint64 // limit on the sum of allocations, 0: none
	allocSum Value
	depthLim int // call depth that counts as exhausting the stack, 0: none
	side     map[any]Value
	tags     map[string]Value

	sch      *sched
	race     *raceState
	noRace   int
	mapOrder bool
	preempt  int

	end      *pathEnd
	newItems []*workItem
	stack    string
	asserts  int64
	incompl  map[string]int
	schedLog []string
}

func (p *Path) fresh(prefix string) string {
	p.nvar++
	return fmt.Sprintf("%s%d", prefix, p.nvar)
}

func (p *Path) finish(kind, msg string) {
	e := &pathEnd{kind: kind, msg: msg}
	if kind != "assume" {
		e.site = p.stackTrace()
	}
	panic(e)
}

func (p *Path) incomplete(why string) {
	if p.incompl == nil {
		p.incompl = map[string]int{}
	}
	p.incompl[why]++
}

// ---- constraint bookkeeping ----

func (p *Path) vars(t *Term) []uint64 {
	if t.op == OConst {
		return nil
	}
	if v, ok := p.varsOf[t]; ok {
		return v
	}
	var out []uint64
	if t.op == OVar {
		out = []uint64{t.h1}
	} else {
		for _, a := range t.a {
			if a != nil {
				out = mergeU(out, p.vars(a))
			}
		}
		if t.op == OSel {
			out = mergeU(out, []uint64{hashStr(t.name)})
		}
	}
	p.varsOf[t] = out
	return out
}

func hashStr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = mix(h, uint64(s[i])+uint64(i)<<9)
	}
	return h
}

func mergeU(a, b []uint64) []uint64 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]uint64, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	if len(out) == len(a) {
		return a
	}
	return out
}

func (p *Path) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	p.learn(t)
	p.addPC1(t)
}

func (p *Path) addPC1(t *Term) {
	if t.op == OAnd {
		p.addPC1(t.a[0])
		p.addPC1(t.a[1])
		return
	}
	p.pc = append(p.pc, t)
	p.pcv = append(p.pcv, p.vars(t))
}

// learn records that t holds on this path.
func (p *Path) learn(t *Term) {
	p.known[[2]uint64{t.h1, t.h2}] = true
	n := mkNot(t)
	p.known[[2]uint64{n.h1, n.h2}] = false
	if t.op == OAnd {
		p.learn(t.a[0])
		p.learn(t.a[1])
	}
}

// slice returns the constraints that share variables (transitively) with vs.
func (p *Path) slice(vs []uint64) []*Term {
	want := make(map[uint64]bool, len(vs))
	for _, v := range vs {
		want[v] = true
	}
	used := make([]bool, len(p.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i := range p.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.pcv[i] {
				if want[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, p.pc[i])
				for _, v := range p.pcv[i] {
					if !want[v] {
						want[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// feasible asks whether pc && t is satisfiable.
func (p *Path) feasible(t *Term) (Res, *Model) {
	if t.isFalse() {
		return Unsat, nil
	}
	cs := append(p.slice(p.vars(t)), t)
	t0 := time.Now()
	r, m := p.sv.check(cs)
	if forkProf != nil {
		forkProf.add(p, r, time.Since(t0))
	}
	if r != Sat {
		return r, nil
	}
	full := p.model.clone()
	for k, v := range m.vars {
		full.vars[k] = v
	}
	for k, v := range m.arrs {
		full.arrs[k] = v
	}
	return Sat, full
}

// decide resolves a boolean term, forking when both outcomes are possible.
func (p *Path) decide(t *Term) bool {
	if t.op == OConst {
		return t.k == 1
	}
	if v, ok := p.known[[2]uint64{t.h1, t.h2}]; ok {
		return v
	}
	if p.dpos < len(p.prefix) {
		d := p.prefix[p.dpos]
		p.dpos++
		p.trace = append(p.trace, d)
		switch d.k {
		case dTrue:
			p.addPC(t)
			return true
		case dFalse:
			p.addPC(mkNot(t))
			return false
		case dTrueI:
			p.learn(t)
			return true
		case dFalseI:
			p.learn(mkNot(t))
			return false
		}
		p.finish("unsupported", "internal: decision kinds diverged on re-execution")
	}
	b := p.model.eval(t) == 1
	other := t
	if b {
		other = mkNot(t)
	}
	r, m := p.feasible(other)
	atomic.AddInt64(&p.eng.branches, 1)
	switch r {
	case Unsat:
		if b {
			p.learn(t)
			p.trace = append(p.trace, decision{k: dTrueI})
		} else {
			p.learn(mkNot(t))
			p.trace = append(p.trace, decision{k: dFalseI})
		}
		return b
	case Sat:
		pre := make([]decision, len(p.trace)+1)
		copy(pre, p.trace)
		pre[len(p.trace)] = decision{k: dkind(b2u(!b))}
		p.newItems = append(p.newItems, &workItem{p.h, pre, m})
	default:
		p.incomplete("solver returned unknown on a branch")
	}
	p.trace = append(p.trace, decision{k: dkind(b2u(b))})
	if b {
		p.addPC(t)
	} else {
		p.addPC(mkNot(t))
	}
	return b
}

// concretise picks a value for t, forking over the others.
func (p *Path) concretise(t *Term, w uint8) uint64 {
	if t.op == OConst {
		return t.k
	}
	for round := 0; ; round++ {
		if p.dpos < len(p.prefix) {
			d := p.prefix[p.dpos]
			p.dpos++
			p.trace = append(p.trace, d)
			switch d.k {
			case dEQ:
				p.addPC(mkEq(t, bv(w, d.v)))
				return d.v
			case dNE:
				p.addPC(mkNot(mkEq(t, bv(w, d.v))))
				continue
			}
			p.finish("unsupported", "internal: decision kinds diverged on re-execution")
		}
		if round > 4096 {
			p.finish("bound", "more than 4096 values for one concretisation")
		}
		v := p.model.eval(t)
		eq := mkEq(t, bv(w, v))
		atomic.AddInt64(&p.eng.branches, 1)
		r, m := p.feasible(mkNot(eq))
		switch r {
		case Sat:
			pre := make([]decision, len(p.trace)+1)
			copy(pre, p.trace)
			pre[len(p.trace)] = decision{k: dNE, v: v}
			p.newItems = append(p.newItems, &workItem{p.h, pre, m})
		case Unknown:
			p.incomplete("solver returned unknown on a concretisation")
		}
		p.trace = append(p.trace, decision{k: dEQ, v: v})
		p.addPC(eq)
		return v
	}
}

func (p *Path) conc(v Value, w uint8) uint64 {
	if v.conc() {
		return v.u
	}
	return p.concretise(v.term(w), w)
}

func (p *Path) concInt(v Value) int { return int(int64(p.conc(v, 64))) }

func (p *Path) truth(v Value) bool {
	if v.conc() {
		return v.u == 1
	}
	return p.decide(v.term(0))
}

// choose: a nondeterministic choice in [0,n) as a fresh symbolic variable.
func (p *Path) choose(n int, nm string) int {
	if n <= 1 {
		return 0
	}
	t := mkVar(p.fresh(nm), 32, 0, uint64(n-1))
	k := int(p.concretise(t, 32))
	if nm == "sched" || nm == "preempt" || nm == "select" || nm == "maporder" {
		p.schedLog = append(p.schedLog, fmt.Sprintf("%s %d/%d", nm, k, n))
	}
	return k
}

// assert: the property.  Any model of pc && !c is a violation.
func (p *Path) assertT(c *Term, msg string) {
	p.asserts++
	if c.isTrue() {
		return
	}
	if v, ok := p.known[[2]uint64{c.h1, c.h2}]; ok && v {
		return
	}
	if c.isFalse() {
		p.finish("violation", msg)
	}
	if p.dpos < len(p.prefix) {
		// already discharged (or forked) on the path this one was forked from
		d := p.prefix[p.dpos]
		p.dpos++
		p.trace = append(p.trace, d)
		switch d.k {
		case dTrueI:
			p.learn(c)
			return
		case dTrue:
			p.addPC(c)
			return
		case dFalse:
			p.addPC(mkNot(c))
			p.finish("violation", msg)
		}
		p.finish("unsupported", "internal: decision kinds diverged on re-execution")
	}
	n := mkNot(c)
	if p.model.eval(c) == 0 {
		// violated by the current model; also explore the side where it holds
		if r, m := p.feasible(c); r == Sat {
			pre := make([]decision, len(p.trace)+1)
			copy(pre, p.trace)
			pre[len(p.trace)] = decision{k: dTrue}
			p.newItems = append(p.newItems, &workItem{p.h, pre, m})
		}
		p.trace = append(p.trace, decision{k: dFalse})
		p.addPC(n)
		p.finish("violation", msg)
	}
	r, m := p.feasible(n)
	switch r {
	case Unsat:
		p.learn(c)
		p.trace = append(p.trace, decision{k: dTrueI})
		return
	case Unknown:
		p.incomplete("solver returned unknown on an assertion: " + msg)
		p.trace = append(p.trace, decision{k: dTrue})
		p.addPC(c)
		return
	}
	pre := make([]decision, len(p.trace)+1)
	copy(pre, p.trace)
	pre[len(p.trace)] = decision{k: dFalse}
	p.newItems = append(p.newItems, &workItem{p.h, pre, m})
	p.trace = append(p.trace, decision{k: dTrue})
	p.addPC(c)
}

func (p *Path) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		p.finish("assume", "")
	}
	if v, ok := p.known[[2]uint64{c.h1, c.h2}]; ok {
		if v {
			return
		}
		p.finish("assume", "")
	}
	if p.dpos < len(p.prefix) {
		// model of this item already satisfies everything up to its last decision
		p.addPC(c)
		return
	}
	if p.model.eval(c) == 1 {
		p.addPC(c)
		return
	}
	r, m := p.feasible(c)
	switch r {
	case Sat:
		p.model = m
		p.addPC(c)
	case Unsat:
		p.finish("assume", "")
	default:
		p.incomplete("solver returned unknown on an assumption")
		p.finish("bound", "assumption undecided")
	}
}

// rtcheck: a runtime check; when it can fail the failing side panics.
func (p *Path) rtcheck(ok *Term, msg string) {
	if ok.isTrue() {
		return
	}
	if !p.decide(ok) {
		p.rtpanic(msg)
	}
}
