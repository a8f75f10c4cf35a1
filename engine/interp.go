package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// ipanic is a panic of the interpreted program.
type ipanic struct {
	val   Value // interface value
	msg   string
	stack string
	rt    bool
}

func (p *Path) curFrame() *frame {
	if p.sch != nil && p.sch.cur != nil {
		return p.sch.cur.top
	}
	return nil
}

func (p *Path) stackTrace() string {
	var sb strings.Builder
	n := 0
	for fr := p.curFrame(); fr != nil && n < 40; fr = fr.caller {
		fmt.Fprintf(&sb, "%s %s\n", fr.fn.name, p.eng.posOf(fr))
		n++
	}
	return sb.String()
}

func (e *Engine) posOf(fr *frame) string {
	if fr.block >= len(fr.fn.blocks) {
		return ""
	}
	b := fr.fn.blocks[fr.block]
	var ps token.Pos
	if fr.ip < len(b.pos) {
		ps = b.pos[fr.ip]
	} else {
		ps = b.tpos
	}
	for i := fr.ip; ps == token.NoPos && i >= 0; i-- {
		if i < len(b.pos) {
			ps = b.pos[i]
		}
	}
	if ps == token.NoPos {
		ps = fr.fn.fn.Pos()
	}
	return e.fset.Position(ps).String()
}

func (p *Path) rtpanic(msg string) {
	var v Value
	if t := p.eng.rtErrType; t != nil {
		v = Value{x: &IfaceV{t: t, v: str(msg)}}
	} else {
		v = Value{x: &IfaceV{t: types.Typ[types.String], v: str(msg)}}
	}
	panic(&ipanic{val: v, msg: "runtime error: " + msg, stack: p.stackTrace(), rt: true})
}

func (p *Path) gopanic(fr *frame, v Value) {
	msg := "panic"
	if i, ok := v.x.(*IfaceV); ok && i != nil {
		msg = "panic(" + p.eng.show(i.t, i.v) + ")"
	}
	panic(&ipanic{val: v, msg: msg, stack: p.stackTrace()})
}

// call runs a function value.
func (p *Path) callFV(caller *frame, fv *FuncV, args []Value) Value {
	if fv == nil {
		p.rtpanic("invalid memory address or nil pointer dereference")
	}
	if fv.nat != nil {
		return fv.nat(p, args)
	}
	return p.callFn(caller, p.eng.cfunc(fv.fn), args, fv.bind)
}

func (p *Path) callFn(caller *frame, c *CFunc, args []Value, bind []Value) Value {
	if c.intr != nil {
		return c.intr(p, caller, args)
	}
	c.prepare(p.eng)
	if c.blocks == nil {
		unsup("function without a body: " + c.name)
	}
	if atomic.LoadInt32(&c.covered) == 0 {
		atomic.StoreInt32(&c.covered, 1)
	}
	fr := &frame{p: p, fn: c, r: make([]Value, c.nreg), caller: caller}
	copy(fr.r, args)
	copy(fr.r[c.nparam:], bind)
	g := p.sch.cur
	fr.g = g
	g.depth++
	if p.depthLim > 0 {
		if g.depth > p.depthLim {
			p.finish("violation", "the stack grows without limit")
		}
	} else if g.depth > 2500 {
		p.finish("bound", "call depth limit")
	}
	old := g.top
	g.top = fr
	if c.hasDef {
		for !fr.done {
			p.runDef(fr)
		}
	} else {
		p.run(fr)
	}
	g = p.sch.cur // same goroutine
	g.top = old
	g.depth--
	return fr.result
}

func (p *Path) runDef(fr *frame) {
	g := fr.g
	depth := g.depth
	defer func() {
		if fr.done {
			return
		}
		e := recover()
		ip, ok := e.(*ipanic)
		if !ok {
			panic(e)
		}
		g.top = fr
		g.depth = depth
		fr.panicking = ip
		fr.runDefers()
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fr.fn.recov < 0 {
			// no named results: zero results
			fr.result = zeroResults(fr.fn.fn)
			fr.done = true
			return
		}
		fr.prev = fr.block
		fr.block = fr.fn.recov
	}()
	p.run(fr)
	fr.done = true
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Value{}
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

// run executes from fr.block until the function returns.
func (p *Path) run(fr *frame) {
	c := fr.fn
	for {
		b := c.blocks[fr.block]
		if len(b.phis) > 0 {
			pi := 0
			for i, x := range b.preds {
				if x == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.r[b.phis[0].dst] = fr.get(&b.phis[0].edges[pi])
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].edges[pi])
				}
				for i := range b.phis {
					fr.r[b.phis[i].dst] = tmp[i]
				}
			}
		}
		for i, f := range b.ins {
			fr.ip = i
			f(fr)
		}
		p.steps += int64(len(b.ins)) + 1
		if p.steps > p.maxSt {
			p.finish("bound", "step limit")
		}
		if p.steps&0x3fff < int64(len(b.ins))+1 && p.eng.expired() {
			p.finish("bound", "time budget")
		}
		fr.ip = len(b.ins)
		n := b.term(fr)
		if n < 0 {
			return
		}
		fr.prev = fr.block
		fr.block = n
	}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	g := fr.g
	depth, top := g.depth, g.top
	defer func() {
		if ok {
			return
		}
		e := recover()
		ip, isP := e.(*ipanic)
		if !isP {
			panic(e)
		}
		g.depth, g.top = depth, top
		fr.panicking = ip // replaces the earlier panic; the remaining defers still run
	}()
	if d.b != nil {
		fr.p.builtin(fr, d.b, d.args, d.call)
	} else {
		fr.p.callFV(fr, d.fv, d.args)
	}
	ok = true
}

func (fr *frame) doRecover() Value {
	// fr: the frame calling recover()
	c := fr.caller
	if c != nil && c.panicking != nil && fr.panicking == nil {
		v := c.panicking.val
		c.panicking = nil
		if i, ok := v.x.(*IfaceV); ok {
			return Value{x: i}
		}
		return v
	}
	return nilIface
}

// prepCall evaluates a call's function and arguments without calling.
func (cc *compiler) prepCall(c *ssa.CallCommon) func(fr *frame) deferred {
	args := cc.ops(c.Args)
	ev := func(fr *frame) []Value {
		a := make([]Value, len(args))
		for i := range args {
			a[i] = fr.get(&args[i])
		}
		return a
	}
	if c.IsInvoke() {
		x := cc.op(c.Value)
		m := c.Method
		return func(fr *frame) deferred {
			fv, recv := fr.p.method(fr.get(&x), m)
			return deferred{fv: fv, args: append([]Value{recv}, ev(fr)...)}
		}
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return func(fr *frame) deferred { return deferred{b: f, args: ev(fr), call: c} }
	}
	x := cc.op(c.Value)
	return func(fr *frame) deferred {
		return deferred{fv: fr.get(&x).x.(*FuncV), args: ev(fr)}
	}
}

func (p *Path) method(v Value, m *types.Func) (*FuncV, Value) {
	i := v.ifc()
	if i == nil {
		p.rtpanic("invalid memory address or nil pointer dereference")
	}
	if n, ok := i.v.x.(nativeObj); ok {
		return &FuncV{nat: func(p *Path, a []Value) Value { return n.invoke(p, m.Name(), a[1:]) }}, i.v
	}
	fn := p.eng.findMethod(i.t, m)
	if fn == nil {
		unsup(fmt.Sprintf("no method %s on %s", m.Name(), i.t))
	}
	return &FuncV{fn: fn}, i.v
}

type nativeObj interface {
	invoke(p *Path, name string, args []Value) Value
}

func (cc *compiler) call(c *ssa.CallCommon, in *ssa.Call) func(fr *frame) Value {
	args := cc.ops(c.Args)
	if c.IsInvoke() {
		x := cc.op(c.Value)
		m := c.Method
		return func(fr *frame) Value {
			fv, recv := fr.p.method(fr.get(&x), m)
			a := make([]Value, len(args)+1)
			a[0] = recv
			for i := range args {
				a[i+1] = fr.get(&args[i])
			}
			return fr.p.callFV(fr, fv, a)
		}
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return func(fr *frame) Value {
			a := make([]Value, len(args))
			for i := range args {
				a[i] = fr.get(&args[i])
			}
			return fr.p.builtin(fr, f, a, c)
		}
	case *ssa.Function:
		cf := cc.e.cfunc(f)
		if f.Name() == "init" && f.Synthetic == "package initializer" {
			return func(fr *frame) Value { return Value{} } // packages are initialised on first use
		}
		return func(fr *frame) Value {
			a := make([]Value, len(args))
			for i := range args {
				a[i] = fr.get(&args[i])
			}
			return fr.p.callFn(fr, cf, a, nil)
		}
	}
	x := cc.op(c.Value)
	return func(fr *frame) Value {
		fv := fr.get(&x).x.(*FuncV)
		a := make([]Value, len(args))
		for i := range args {
			a[i] = fr.get(&args[i])
		}
		return fr.p.callFV(fr, fv, a)
	}
}

// ---- memory ----

func (p *Path) slot(pt *Ptr) *Value {
	switch c := pt.c.(type) {
	case *Box:
		return &c.v
	case *StructV:
		return &c.f[pt.i]
	case *GArr:
		return c.at(int(pt.idx.u))
	}
	unsup(fmt.Sprintf("address of %T", pt.c))
	return nil
}

func (p *Path) load(pt *Ptr) Value {
	if pt == nil {
		p.rtpanic("invalid memory address or nil pointer dereference")
	}
	if p.race != nil && p.noRace == 0 {
		p.raceAccess(pt, false)
	}
	switch c := pt.c.(type) {
	case *Box:
		return loadVal(c.v)
	case *StructV:
		return loadVal(c.f[pt.i])
	case *SArr:
		return c.read(pt.idx)
	case *GArr:
		return loadVal(*c.at(int(pt.idx.u)))
	}
	unsup(fmt.Sprintf("load from %T", pt.c))
	return Value{}
}

func loadVal(v Value) Value {
	switch v.x.(type) {
	case *StructV, *GArr, *SArr:
		return copyVal(v)
	}
	return v
}

func (p *Path) store(pt *Ptr, v Value) {
	if pt == nil {
		p.rtpanic("invalid memory address or nil pointer dereference")
	}
	if p.race != nil && p.noRace == 0 {
		p.raceAccess(pt, true)
	}
	switch c := pt.c.(type) {
	case *Box:
		assign(&c.v, v)
	case *StructV:
		assign(&c.f[pt.i], v)
	case *SArr:
		c.write(pt.idx, v)
	case *GArr:
		assign(c.at(int(pt.idx.u)), v)
	default:
		unsup(fmt.Sprintf("store to %T", pt.c))
	}
}

type ptrKey struct {
	c any
	i uint64
}

func (pt *Ptr) key() ptrKey {
	if pt.idx.x != nil {
		unsup("symbolic pointer as a key")
	}
	return ptrKey{pt.c, uint64(pt.i)<<32 ^ pt.idx.u}
}

// ---- globals and package initialisation ----

func (p *Path) globalPtr(i int) Value {
	if i < len(p.globals) {
		if g := p.globals[i]; g != nil {
			return Value{x: g}
		}
	}
	g := p.eng.globalAt(i)
	p.initGlobal(g, i)
	return Value{x: p.globals[i]}
}

func (p *Path) allocGlobal(g *ssa.Global, i int) *Ptr {
	for len(p.globals) <= i {
		p.globals = append(p.globals, nil)
	}
	if p.globals[i] == nil {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		p.globals[i] = &Ptr{c: &Box{v: zero(t), nm: g.String()}}
	}
	return p.globals[i]
}

func (p *Path) initGlobal(g *ssa.Global, i int) {
	p.allocGlobal(g, i)
	pkg := g.Pkg
	if g.Name() == "init$guard" {
		return
	}
	p.noRace++
	defer func() { p.noRace-- }()
	if p.eng.fullInit(pkg) {
		if p.pkgState[pkg] != 0 {
			return
		}
		p.pkgState[pkg] = 1
		f := pkg.Func("init")
		if f != nil {
			p.callFn(nil, p.eng.cfunc(f), nil, nil)
		}
		return
	}
	if h, ok := globalOverride[g.String()]; ok {
		p.store(p.globals[i], h(p))
		return
	}
	p.initSlice(g)
}

// initSlice executes only the part of a package initialiser that computes g.
func (p *Path) initSlice(g *ssa.Global) {
	if p.globBusy[g] {
		return
	}
	p.globBusy[g] = true
	f := g.Pkg.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	sl := p.eng.initSliceOf(g, f)
	if len(sl) == 0 {
		return
	}
	c := p.eng.cfunc(f)
	c.prepare(p.eng)
	fr := &frame{p: p, fn: c, r: make([]Value, c.nreg), g: p.sch.cur}
	for _, s := range sl {
		if s.bad != "" {
			unsup("initialiser of " + g.String() + ": " + s.bad)
		}
		s.f(fr)
	}
}

type slInstr struct {
	f   instrFn
	bad string
}

func (e *Engine) initSliceOf(g *ssa.Global, f *ssa.Function) []slInstr {
	e.mu.Lock()
	defer e.mu.Unlock()
	if s, ok := e.initSlices[g]; ok {
		return s
	}
	need := map[ssa.Instruction]bool{}
	var addV func(v ssa.Value)
	var addI func(in ssa.Instruction)
	addI = func(in ssa.Instruction) {
		if need[in] {
			return
		}
		need[in] = true
		var ops []*ssa.Value
		for _, o := range in.Operands(ops) {
			if *o != nil {
				addV(*o)
			}
		}
	}
	addV = func(v ssa.Value) {
		in, ok := v.(ssa.Instruction)
		if !ok || in.Parent() != f {
			return
		}
		first := !need[in]
		addI(in)
		if !first {
			return
		}
		switch v.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeMap, *ssa.MakeSlice:
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == v {
						addI(r)
					}
				case *ssa.FieldAddr:
					addV(r)
				case *ssa.IndexAddr:
					addV(r)
				case *ssa.MapUpdate:
					if r.Map == v {
						addI(r)
					}
				}
			}
		}
	}
	// stores to g, directly or to its fields
	var roots func(a ssa.Value) bool
	roots = func(a ssa.Value) bool {
		switch a := a.(type) {
		case *ssa.Global:
			return a == g
		case *ssa.FieldAddr:
			return roots(a.X)
		case *ssa.IndexAddr:
			return roots(a.X)
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && roots(s.Addr) {
				addI(s)
			}
		}
	}
	c := e.cfunc(f)
	c.prepare(e)
	// stable register numbering: recompute
	cc := &compiler{e: e, f: c, regs: map[ssa.Value]int{}}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				cc.reg(v)
			}
		}
	}
	var out []slInstr
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if !need[in] {
				continue
			}
			switch in.(type) {
			case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return:
				out = append(out, slInstr{bad: "control flow"})
			default:
				out = append(out, slInstr{f: cc.instr(in)})
			}
		}
	}
	e.initSlices[g] = out
	return out
}
