package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// CFunc is an ssa.Function compiled to closures.
type CFunc struct {
	fn      *ssa.Function
	name    string
	nreg    int
	nparam  int
	blocks  []*CBlock
	recov   int // index of recover block or -1
	hasDef  bool
	intr    intrinsic
	once    sync.Once
	covered int32
	pkg     *ssa.Package
	harness bool
}

type instrFn func(fr *frame)

type CBlock struct {
	phis  []cphi
	ins   []instrFn
	pos   []token.Pos
	succs []int
	term  func(fr *frame) int // next block index, -1 to return
	tpos  token.Pos
	preds []int
}

type cphi struct {
	dst   int
	edges []opnd
}

type opnd struct {
	reg int32
	g   int32
	c   Value
}

type deferred struct {
	fv   *FuncV
	args []Value
	b    *ssa.Builtin
	call *ssa.CallCommon
	intr bool
}

type frame struct {
	p         *Path
	g         *gor
	fn        *CFunc
	r         []Value
	block     int
	prev      int
	ip        int
	defers    []deferred
	panicking *ipanic
	result    Value
	caller    *frame
	done      bool
}

func (fr *frame) get(o *opnd) Value {
	if o.reg >= 0 {
		return fr.r[o.reg]
	}
	if o.g >= 0 {
		return fr.p.globalPtr(int(o.g))
	}
	return o.c
}

type compiler struct {
	e    *Engine
	f    *CFunc
	regs map[ssa.Value]int
}

func (e *Engine) cfunc(fn *ssa.Function) *CFunc {
	if c, ok := e.cfuncs.Load(fn); ok {
		return c.(*CFunc)
	}
	c := &CFunc{fn: fn, name: fn.String(), recov: -1, pkg: fn.Pkg, harness: strings.Contains(fn.String(), "verifh/")}
	c.intr = lookupIntrinsic(fn)
	a, _ := e.cfuncs.LoadOrStore(fn, c)
	return a.(*CFunc)
}

func (c *CFunc) prepare(e *Engine) {
	c.once.Do(func() {
		fn := c.fn
		if fn.Blocks == nil {
			return
		}
		cc := &compiler{e: e, f: c, regs: map[ssa.Value]int{}}
		for _, p := range fn.Params {
			cc.reg(p)
		}
		for _, p := range fn.FreeVars {
			cc.reg(p)
		}
		c.nparam = len(fn.Params)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					cc.reg(v)
				}
				if _, ok := in.(*ssa.Defer); ok {
					c.hasDef = true
				}
			}
		}
		for _, b := range fn.Blocks {
			c.blocks = append(c.blocks, cc.block(b))
		}
		if fn.Recover != nil {
			c.recov = fn.Recover.Index
		}
		c.nreg = len(cc.regs)
	})
}

func (cc *compiler) reg(v ssa.Value) int {
	if r, ok := cc.regs[v]; ok {
		return r
	}
	r := len(cc.regs)
	cc.regs[v] = r
	return r
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return nilIface
		}
		// type parameter residue
		unsup("constant of type " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return cb(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return str(constant.StringVal(c.Value))
		}
		return str(string(rune(c.Int64())))
	case b.Info()&types.IsInteger != 0:
		w, _ := scalarW(t)
		if b.Info()&types.IsUnsigned != 0 {
			return cu(c.Uint64() & mask(w))
		}
		return cu(uint64(c.Int64()) & mask(w))
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			return cu(uint64(math.Float32bits(float32(f))))
		}
		return cu(math.Float64bits(f))
	}
	unsup("constant of type " + t.String())
	return Value{}
}

func (cc *compiler) op(v ssa.Value) (o opnd) {
	switch v := v.(type) {
	case *ssa.Const:
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
					o = opnd{reg: -1, g: -1, c: Value{x: "unsupported constant"}}
				}
			}()
			o = opnd{reg: -1, g: -1, c: constVal(v)}
		}()
		return o
	case *ssa.Function:
		return opnd{reg: -1, g: -1, c: Value{x: &FuncV{fn: v}}}
	case *ssa.Global:
		return opnd{reg: -1, g: int32(cc.e.globalIndex(v))}
	case *ssa.Builtin:
		return opnd{reg: -1, g: -1}
	}
	return opnd{reg: int32(cc.reg(v)), g: -1}
}

func (cc *compiler) ops(vs []ssa.Value) []opnd {
	out := make([]opnd, len(vs))
	for i, v := range vs {
		out[i] = cc.op(v)
	}
	return out
}

func (cc *compiler) block(b *ssa.BasicBlock) *CBlock {
	cb := &CBlock{}
	for _, s := range b.Succs {
		cb.succs = append(cb.succs, s.Index)
	}
	for _, s := range b.Preds {
		cb.preds = append(cb.preds, s.Index)
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			cb.phis = append(cb.phis, cphi{cc.reg(in), cc.ops(in.Edges)})
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			c := cc.op(in.Cond)
			t, f := b.Succs[0].Index, b.Succs[1].Index
			cb.tpos = in.Pos()
			cb.term = func(fr *frame) int {
				v := fr.get(&c)
				if v.x == nil {
					if v.u == 1 {
						return t
					}
					return f
				}
				if fr.p.decide(v.x.(*Term)) {
					return t
				}
				return f
			}
			continue
		case *ssa.Jump:
			t := b.Succs[0].Index
			cb.term = func(fr *frame) int { return t }
			continue
		case *ssa.Return:
			cb.tpos = in.Pos()
			os := cc.ops(in.Results)
			switch len(os) {
			case 0:
				cb.term = func(fr *frame) int { return -1 }
			case 1:
				cb.term = func(fr *frame) int { fr.result = fr.get(&os[0]); return -1 }
			default:
				cb.term = func(fr *frame) int {
					t := make(TupleV, len(os))
					for i := range os {
						t[i] = fr.get(&os[i])
					}
					fr.result = Value{x: t}
					return -1
				}
			}
			continue
		case *ssa.Panic:
			x := cc.op(in.X)
			cb.tpos = in.Pos()
			cb.term = func(fr *frame) int {
				fr.p.gopanic(fr, fr.get(&x))
				return -1
			}
			continue
		}
		f := cc.instr(in)
		cb.ins = append(cb.ins, f)
		cb.pos = append(cb.pos, in.Pos())
	}
	return cb
}

func (cc *compiler) instr(in ssa.Instruction) (fn instrFn) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				fn = func(fr *frame) { unsup(u.msg) }
				return
			}
			panic(r)
		}
	}()
	switch in := in.(type) {
	case *ssa.Alloc:
		d := cc.reg(in)
		t := in.Type().Underlying().(*types.Pointer).Elem()
		nm := in.Comment
		return func(fr *frame) {
			fr.r[d] = Value{x: &Ptr{c: &Box{v: zero(t), nm: nm}}}
		}
	case *ssa.UnOp:
		return cc.unop(in)
	case *ssa.BinOp:
		d, x, y := cc.reg(in), cc.op(in.X), cc.op(in.Y)
		f := binop(in.Op, in.X.Type(), in.Y.Type())
		return func(fr *frame) { fr.r[d] = f(fr.p, fr.get(&x), fr.get(&y)) }
	case *ssa.Call:
		d := cc.reg(in)
		f := cc.call(&in.Call, in)
		return func(fr *frame) { fr.r[d] = f(fr) }
	case *ssa.ChangeInterface:
		d, x := cc.reg(in), cc.op(in.X)
		return func(fr *frame) { fr.r[d] = fr.get(&x) }
	case *ssa.ChangeType:
		d, x := cc.reg(in), cc.op(in.X)
		return func(fr *frame) { fr.r[d] = fr.get(&x) }
	case *ssa.Convert:
		d, x := cc.reg(in), cc.op(in.X)
		f := convert(in.X.Type(), in.Type())
		return func(fr *frame) { fr.r[d] = f(fr.p, fr.get(&x)) }
	case *ssa.MultiConvert:
		d, x := cc.reg(in), cc.op(in.X)
		f := convert(in.X.Type(), in.Type())
		return func(fr *frame) { fr.r[d] = f(fr.p, fr.get(&x)) }
	case *ssa.Defer:
		f := cc.prepCall(&in.Call)
		return func(fr *frame) { fr.defers = append(fr.defers, f(fr)) }
	case *ssa.Go:
		f := cc.prepCall(&in.Call)
		return func(fr *frame) { fr.p.spawn(fr, f(fr)) }
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.runDefers()
			if fr.panicking != nil {
				panic(fr.panicking)
			}
		}
	case *ssa.Extract:
		d, x, i := cc.reg(in), cc.op(in.Tuple), in.Index
		return func(fr *frame) { fr.r[d] = fr.get(&x).x.(TupleV)[i] }
	case *ssa.Field:
		d, x, i := cc.reg(in), cc.op(in.X), in.Field
		return func(fr *frame) { fr.r[d] = fr.get(&x).x.(*StructV).f[i] }
	case *ssa.FieldAddr:
		d, x, i := cc.reg(in), cc.op(in.X), in.Field
		return func(fr *frame) {
			p := fr.get(&x).x.(*Ptr)
			if p == nil {
				fr.p.rtpanic("invalid memory address or nil pointer dereference")
			}
			s, ok := fr.p.slot(p).x.(*StructV)
			if !ok {
				unsup("field address of a non-struct slot in " + fr.fn.name)
			}
			fr.r[d] = Value{x: &Ptr{c: s, i: i}}
		}
	case *ssa.Index:
		return cc.index(in)
	case *ssa.IndexAddr:
		return cc.indexAddr(in)
	case *ssa.Lookup:
		return cc.lookup(in)
	case *ssa.MakeChan:
		d, n := cc.reg(in), cc.op(in.Size)
		et := in.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			k := int64(fr.p.conc(fr.get(&n), 64))
			if k < 0 || k > 1<<20 {
				fr.p.rtpanic("makechan: size out of range")
			}
			fr.r[d] = Value{x: &ChanV{cap: int(k), et: et}}
		}
	case *ssa.MakeClosure:
		d := cc.reg(in)
		fn := in.Fn.(*ssa.Function)
		bs := cc.ops(in.Bindings)
		return func(fr *frame) {
			b := make([]Value, len(bs))
			for i := range bs {
				b[i] = fr.get(&bs[i])
			}
			fr.r[d] = Value{x: &FuncV{fn: fn, bind: b}}
		}
	case *ssa.MakeInterface:
		d, x, t := cc.reg(in), cc.op(in.X), in.X.Type()
		return func(fr *frame) { fr.r[d] = Value{x: &IfaceV{t: t, v: fr.get(&x)}} }
	case *ssa.MakeMap:
		d := cc.reg(in)
		mt := in.Type().Underlying().(*types.Map)
		var n *opnd
		if in.Reserve != nil {
			o := cc.op(in.Reserve)
			n = &o
		}
		return func(fr *frame) {
			if n != nil {
				fr.p.checkAlloc(fr.get(n), 48)
			}
			fr.r[d] = Value{x: newMap(mt)}
		}
	case *ssa.MakeSlice:
		d, l, c := cc.reg(in), cc.op(in.Len), cc.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		lw, cw := in.Len.Type(), in.Cap.Type()
		return func(fr *frame) {
			fr.r[d] = fr.p.makeSlice(et, to64(fr.get(&l), lw), to64(fr.get(&c), cw))
		}
	case *ssa.MapUpdate:
		m, k, v := cc.op(in.Map), cc.op(in.Key), cc.op(in.Value)
		return func(fr *frame) {
			mv := fr.get(&m).x.(*MapV)
			if mv == nil {
				fr.p.rtpanic("assignment to entry in nil map")
			}
			fr.p.mapSet(mv, fr.get(&k), fr.get(&v))
		}
	case *ssa.Next:
		d, it := cc.reg(in), cc.op(in.Iter)
		if in.IsString {
			return func(fr *frame) { fr.r[d] = fr.get(&it).x.(*strIter).next(fr.p) }
		}
		return func(fr *frame) { fr.r[d] = fr.get(&it).x.(*mapIter).next(fr.p) }
	case *ssa.Range:
		d, x := cc.reg(in), cc.op(in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			mt := in.X.Type().Underlying().(*types.Map)
			return func(fr *frame) {
				fr.r[d] = Value{x: newMapIter(fr.p, fr.get(&x).x.(*MapV), mt)}
			}
		}
		return func(fr *frame) { fr.r[d] = Value{x: &strIter{s: fr.get(&x).str()}} }
	case *ssa.Select:
		return cc.selectInstr(in)
	case *ssa.Send:
		c, x := cc.op(in.Chan), cc.op(in.X)
		return func(fr *frame) { fr.p.chanSend(fr, fr.get(&c).x.(*ChanV), fr.get(&x)) }
	case *ssa.Slice:
		return cc.slice(in)
	case *ssa.SliceToArrayPointer:
		d, x := cc.reg(in), cc.op(in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) {
			s := fr.get(&x).sl()
			fr.p.rtcheck(vule(cu(uint64(n)), s.len), "cannot convert slice to array pointer: length too short")
			if s.arr == nil {
				fr.r[d] = nilPtr
				return
			}
			if a, ok := s.arr.(*SArr); ok && s.off.conc() && s.off.u == 0 {
				fr.r[d] = Value{x: &Ptr{c: &Box{v: Value{x: a}}}}
				return
			}
			unsup("slice to array pointer at an offset")
		}
	case *ssa.Store:
		a, x := cc.op(in.Addr), cc.op(in.Val)
		return func(fr *frame) { fr.p.store(fr.get(&a).x.(*Ptr), fr.get(&x)) }
	case *ssa.TypeAssert:
		return cc.typeAssert(in)
	}
	unsup(fmt.Sprintf("instruction %T", in))
	return nil
}

func to64(v Value, t types.Type) Value {
	w, _ := scalarW(t)
	if w == 64 {
		return v
	}
	if v.conc() {
		if isSigned(t) {
			return cu(uint64(sgn(w, v.u)))
		}
		return v
	}
	if isSigned(t) {
		return fromT(mkSext(v.term(w), 64))
	}
	return fromT(mkZext(v.term(w), 64))
}

func (cc *compiler) unop(in *ssa.UnOp) instrFn {
	d, x := cc.reg(in), cc.op(in.X)
	t := in.X.Type()
	switch in.Op {
	case token.MUL:
		return func(fr *frame) {
			v := fr.get(&x)
			p, ok := v.x.(*Ptr)
			if !ok {
				unsup(fmt.Sprintf("load through %T", v.x))
			}
			fr.r[d] = fr.p.load(p)
		}
	case token.NOT:
		return func(fr *frame) {
			v := fr.get(&x)
			if v.x == nil {
				fr.r[d] = cu(v.u ^ 1)
				return
			}
			fr.r[d] = fromT(mkNot(v.x.(*Term)))
		}
	case token.SUB:
		w, _ := scalarW(t)
		if isFloat(t) {
			return func(fr *frame) {
				v := fr.get(&x)
				sign := uint64(1) << (w - 1)
				if v.x == nil {
					fr.r[d] = cu(v.u ^ sign)
					return
				}
				fr.r[d] = fromT(mkBXor(v.term(w), bv(w, sign)))
			}
		}
		return func(fr *frame) {
			v := fr.get(&x)
			if v.x == nil {
				fr.r[d] = cu(-v.u & mask(w))
				return
			}
			fr.r[d] = fromT(mkSub(bv(w, 0), v.term(w)))
		}
	case token.XOR:
		w, _ := scalarW(t)
		return func(fr *frame) {
			v := fr.get(&x)
			if v.x == nil {
				fr.r[d] = cu(^v.u & mask(w))
				return
			}
			fr.r[d] = fromT(mkSub(mkSub(bv(w, 0), v.term(w)), bv(w, 1)))
		}
	case token.ARROW:
		ok := in.CommaOk
		return func(fr *frame) {
			v, o := fr.p.chanRecv(fr, fr.get(&x).x.(*ChanV))
			if ok {
				fr.r[d] = Value{x: TupleV{v, cb(o)}}
			} else {
				fr.r[d] = v
			}
		}
	}
	unsup("unop " + in.Op.String())
	return nil
}

func (cc *compiler) index(in *ssa.Index) instrFn {
	d, x, i := cc.reg(in), cc.op(in.X), cc.op(in.Index)
	it := in.Index.Type()
	if isString(in.X.Type()) {
		return func(fr *frame) {
			s := fr.get(&x).str()
			ix := to64(fr.get(&i), it)
			fr.p.rtcheck(vult(ix, s.length()), "index out of range")
			fr.r[d] = fr.p.strAt(s, ix)
		}
	}
	n := uint64(in.X.Type().Underlying().(*types.Array).Len())
	return func(fr *frame) {
		ix := to64(fr.get(&i), it)
		fr.p.rtcheck(vult(ix, cu(n)), "index out of range")
		switch a := fr.get(&x).x.(type) {
		case *SArr:
			fr.r[d] = a.read(ix)
		case *GArr:
			fr.r[d] = *a.at(int(fr.p.conc(ix, 64)))
		}
	}
}

func (cc *compiler) indexAddr(in *ssa.IndexAddr) instrFn {
	d, x, i := cc.reg(in), cc.op(in.X), cc.op(in.Index)
	it := in.Index.Type()
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		n := uint64(pt.Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			p := fr.get(&x).x.(*Ptr)
			if p == nil {
				fr.p.rtpanic("invalid memory address or nil pointer dereference")
			}
			ix := to64(fr.get(&i), it)
			fr.p.rtcheck(vult(ix, cu(n)), "index out of range")
			switch a := fr.p.slot(p).x.(type) {
			case *SArr:
				fr.r[d] = Value{x: &Ptr{c: a, idx: ix}}
			case *GArr:
				fr.r[d] = Value{x: &Ptr{c: a, idx: cu(fr.p.conc(ix, 64))}}
			default:
				unsup("index address into a non-array slot")
			}
		}
	}
	return func(fr *frame) {
		s := fr.get(&x).sl()
		ix := to64(fr.get(&i), it)
		fr.p.rtcheck(vult(ix, s.len), "index out of range")
		switch a := s.arr.(type) {
		case *SArr:
			fr.r[d] = Value{x: &Ptr{c: a, idx: vadd(s.off, ix)}}
		case *GArr:
			fr.r[d] = Value{x: &Ptr{c: a, idx: cu(fr.p.conc(vadd(s.off, ix), 64))}}
		default:
			unsup("index address into an unknown slice")
		}
	}
}

func (cc *compiler) lookup(in *ssa.Lookup) instrFn {
	d, x, i := cc.reg(in), cc.op(in.X), cc.op(in.Index)
	if isString(in.X.Type()) {
		it := in.Index.Type()
		return func(fr *frame) {
			s := fr.get(&x).str()
			ix := to64(fr.get(&i), it)
			fr.p.rtcheck(vult(ix, s.length()), "index out of range")
			fr.r[d] = fr.p.strAt(s, ix)
		}
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	ok := in.CommaOk
	return func(fr *frame) {
		m := fr.get(&x).x.(*MapV)
		v, found := fr.p.mapGet(m, fr.get(&i))
		if !found {
			v = zero(vt)
		}
		if ok {
			fr.r[d] = Value{x: TupleV{v, cb(found)}}
		} else {
			fr.r[d] = v
		}
	}
}

func (cc *compiler) slice(in *ssa.Slice) instrFn {
	d, x := cc.reg(in), cc.op(in.X)
	var lo, hi, mx *opnd
	var lt, ht, mt types.Type
	if in.Low != nil {
		o := cc.op(in.Low)
		lo, lt = &o, in.Low.Type()
	}
	if in.High != nil {
		o := cc.op(in.High)
		hi, ht = &o, in.High.Type()
	}
	if in.Max != nil {
		o := cc.op(in.Max)
		mx, mt = &o, in.Max.Type()
	}
	isStr := isString(in.X.Type())
	var arrN int64 = -1
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		arrN = pt.Elem().Underlying().(*types.Array).Len()
	}
	return func(fr *frame) {
		p := fr.p
		l := cu(0)
		if lo != nil {
			l = to64(fr.get(lo), lt)
		}
		if isStr {
			s := fr.get(&x).str()
			n := s.length()
			h := n
			if hi != nil {
				h = to64(fr.get(hi), ht)
				p.rtcheck(vule(h, n), "slice bounds out of range")
			}
			p.rtcheck(vule(l, h), "slice bounds out of range")
			fr.r[d] = p.substr(s, l, h)
			return
		}
		var s *SliceV
		if arrN >= 0 {
			pt := fr.get(&x).x.(*Ptr)
			if pt == nil {
				p.rtpanic("invalid memory address or nil pointer dereference")
			}
			s = &SliceV{arr: p.slot(pt).x, off: cu(0), len: cu(uint64(arrN)), cap: cu(uint64(arrN))}
		} else {
			s = fr.get(&x).sl()
		}
		c := s.cap
		h := s.len
		if hi != nil {
			h = to64(fr.get(hi), ht)
		}
		m := c
		if mx != nil {
			m = to64(fr.get(mx), mt)
			p.rtcheck(vule(m, c), "slice bounds out of range")
		}
		p.rtcheck(vule(h, m), "slice bounds out of range")
		p.rtcheck(vule(l, h), "slice bounds out of range")
		fr.r[d] = Value{x: &SliceV{arr: s.arr, off: vadd(s.off, l), len: vsub(h, l), cap: vsub(m, l)}}
	}
}

func (cc *compiler) typeAssert(in *ssa.TypeAssert) instrFn {
	d, x := cc.reg(in), cc.op(in.X)
	at := in.AssertedType
	ok := in.CommaOk
	if it, isI := at.Underlying().(*types.Interface); isI {
		return func(fr *frame) {
			i := fr.get(&x).ifc()
			good := i != nil && fr.p.eng.implements(i.t, it)
			if ok {
				if good {
					fr.r[d] = Value{x: TupleV{Value{x: i}, cu(1)}}
				} else {
					fr.r[d] = Value{x: TupleV{nilIface, cu(0)}}
				}
				return
			}
			if !good {
				fr.p.rtpanic("interface conversion: missing method or nil for " + at.String())
			}
			fr.r[d] = Value{x: i}
		}
	}
	return func(fr *frame) {
		i := fr.get(&x).ifc()
		good := i != nil && (i.t == at || types.Identical(i.t, at))
		if ok {
			if good {
				fr.r[d] = Value{x: TupleV{i.v, cu(1)}}
			} else {
				fr.r[d] = Value{x: TupleV{zero(at), cu(0)}}
			}
			return
		}
		if !good {
			dyn := "nil"
			if i != nil {
				dyn = i.t.String()
			}
			fr.p.rtpanic("interface conversion: interface is " + dyn + ", not " + at.String())
		}
		fr.r[d] = i.v
	}
}
