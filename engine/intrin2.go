package main

import (
	"go/types"
	"unicode"
)

func initUnicode(uni func(n string, f func(r rune) Value)) {
	r := func(f func(rune) rune) func(rune) Value {
		return func(x rune) Value { return cu(uint64(uint32(f(x)))) }
	}
	b := func(f func(rune) bool) func(rune) Value {
		return func(x rune) Value { return cb(f(x)) }
	}
	uni("ToLower", r(unicode.ToLower))
	uni("ToUpper", r(unicode.ToUpper))
	uni("ToTitle", r(unicode.ToTitle))
	uni("SimpleFold", r(unicode.SimpleFold))
	uni("IsSpace", b(unicode.IsSpace))
	uni("IsLetter", b(unicode.IsLetter))
	uni("IsDigit", b(unicode.IsDigit))
	uni("IsUpper", b(unicode.IsUpper))
	uni("IsLower", b(unicode.IsLower))
}

func initAtomic(I map[string]intrinsic) {
	field := func(p *Path, v Value) *Ptr {
		// atomic.Xxx struct: the value is its last field
		pt := v.ptr()
		if pt == nil {
			p.rtpanic("invalid memory address or nil pointer dereference")
		}
		s := p.slot(pt).x.(*StructV)
		return &Ptr{c: s, i: len(s.f) - 1}
	}
	raw := func(p *Path, v Value) *Ptr { return v.ptr() }
	reg := func(pre string, w uint8, at func(p *Path, v Value) *Ptr) {
		sync := func(p *Path, v Value) *Ptr {
			if v.ptr() == nil {
				p.rtpanic("invalid memory address or nil pointer dereference")
			}
			p.syncPoint()
			pt := at(p, v)
			k := pt.key()
			m := p.mutexes[k]
			if m == nil {
				m = &mutexState{}
				p.mutexes[k] = m
			}
			g := p.sch.cur
			g.vc.join(m.vc)
			m.vc = g.vc.copy()
			g.vc.tick(g.id)
			return pt
		}
		sl := func(p *Path, pt *Ptr) *Value { return p.slot(pt) }
		rd := func(p *Path, pt *Ptr) Value {
			if a, ok := pt.c.(*SArr); ok {
				return a.read(pt.idx)
			}
			return *sl(p, pt)
		}
		wr := func(p *Path, pt *Ptr, v Value) {
			if a, ok := pt.c.(*SArr); ok {
				a.write(pt.idx, v)
				return
			}
			*sl(p, pt) = v
		}
		suffix := ""
		n := func(op string) string {
			if len(pre) > 0 && pre[0] == '(' {
				return pre + "." + op
			}
			return "sync/atomic." + op + pre + suffix
		}
		I[n("Load")] = func(p *Path, fr *frame, a []Value) Value { return rd(p, sync(p, a[0])) }
		I[n("Store")] = func(p *Path, fr *frame, a []Value) Value { wr(p, sync(p, a[0]), a[1]); return Value{} }
		I[n("Swap")] = func(p *Path, fr *frame, a []Value) Value {
			pt := sync(p, a[0])
			o := rd(p, pt)
			wr(p, pt, a[1])
			return o
		}
		I[n("Add")] = func(p *Path, fr *frame, a []Value) Value {
			pt := sync(p, a[0])
			v := fromT(mkAdd(rd(p, pt).term(w), a[1].term(w)))
			wr(p, pt, v)
			return v
		}
		I[n("CompareAndSwap")] = func(p *Path, fr *frame, a []Value) Value {
			pt := sync(p, a[0])
			o := rd(p, pt)
			var eq *Term
			if w == 255 {
				eq = p.ptrEq(o, a[1])
			} else {
				eq = mkEq(o.term(w), a[1].term(w))
			}
			if p.decide(eq) {
				wr(p, pt, a[2])
				return cu(1)
			}
			return cu(0)
		}
	}
	for n, w := range map[string]uint8{"Int32": 32, "Int64": 64, "Uint32": 32, "Uint64": 64, "Uintptr": 64} {
		reg(n, w, raw)
		reg("(*sync/atomic."+n+")", w, field)
	}
	reg("(*sync/atomic.Pointer[T])", 255, field)
	reg("Pointer", 255, raw)
	// atomic.Bool stores a uint32
	reg("(*sync/atomic.Bool)", 0, func(p *Path, v Value) *Ptr { return field(p, v) })
	// atomic.Value
	I["(*sync/atomic.Value).Load"] = func(p *Path, fr *frame, a []Value) Value {
		p.acqrel(a[0])
		m := p.mtx(a[0])
		if m.val.x == nil {
			return nilIface
		}
		return m.val
	}
	I["(*sync/atomic.Value).Store"] = func(p *Path, fr *frame, a []Value) Value {
		p.acqrel(a[0])
		p.mtx(a[0]).val = a[1]
		return Value{}
	}
}

func initReflect(I map[string]intrinsic) {
	typeOf := func(p *Path, fr *frame, a []Value) Value {
		i := a[0].ifc()
		if i == nil {
			return nilIface
		}
		return p.rtype(i.t)
	}
	I["reflect.TypeOf"] = typeOf
	I["internal/reflectlite.TypeOf"] = typeOf
	I["reflect.ValueOf"] = func(p *Path, fr *frame, a []Value) Value {
		i := a[0].ifc()
		if i == nil {
			return Value{x: &StructV{f: []Value{nilPtr, nilPtr, cu(0)}}}
		}
		return p.rval(i.t, i.v)
	}
	M := func(n string, f func(p *Path, r *rvalObj, a []Value) Value) {
		I["(reflect.Value)."+n] = func(p *Path, fr *frame, a []Value) Value {
			r := rvalOf(a[0])
			if r == nil {
				switch n {
				case "IsValid":
					return cu(0)
				case "Kind":
					return cu(0)
				}
				p.rtpanic("reflect: call of " + n + " on zero Value")
			}
			return f(p, r, a[1:])
		}
	}
	M("IsValid", func(p *Path, r *rvalObj, a []Value) Value { return cu(1) })
	M("Kind", func(p *Path, r *rvalObj, a []Value) Value { return cu(kindOf(r.t)) })
	M("Type", func(p *Path, r *rvalObj, a []Value) Value { return p.rtype(r.t) })
	M("CanInterface", func(p *Path, r *rvalObj, a []Value) Value { return cu(1) })
	M("Len", func(p *Path, r *rvalObj, a []Value) Value {
		if at, ok := r.t.Underlying().(*types.Array); ok {
			return ci(int(at.Len()))
		}
		return p.lenOf(r.v)
	})
	M("IsNil", func(p *Path, r *rvalObj, a []Value) Value {
		switch x := r.v.x.(type) {
		case *Ptr:
			return cb(x == nil)
		case *SliceV:
			return cb(x.arr == nil)
		case *MapV:
			return cb(x == nil)
		case *FuncV:
			return cb(x == nil)
		case *ChanV:
			return cb(x == nil)
		case *IfaceV:
			return cb(x == nil)
		}
		p.rtpanic("reflect: call of IsNil on non-nillable Value")
		return Value{}
	})
	M("Index", func(p *Path, r *rvalObj, a []Value) Value {
		var et types.Type
		var arr any
		off, n := cu(0), cu(0)
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := r.v.sl()
			et, arr, off, n = u.Elem(), s.arr, s.off, lenS(s)
		case *types.Array:
			et, arr, n = u.Elem(), r.v.x, ci(int(u.Len()))
		case *types.Basic:
			s := r.v.str()
			p.rtcheck(vult(a[0], s.length()), "reflect: string index out of range")
			return p.rval(types.Typ[types.Uint8], p.strAt(s, a[0]))
		default:
			p.rtpanic("reflect: call of Index on non-slice Value")
		}
		p.rtcheck(vult(a[0], n), "reflect: slice index out of range")
		var v Value
		switch x := arr.(type) {
		case *SArr:
			v = x.read(vadd(off, a[0]))
		case *GArr:
			v = loadVal(*x.at(int(p.conc(vadd(off, a[0]), 64))))
		}
		return p.rval(et, v)
	})
	M("Interface", func(p *Path, r *rvalObj, a []Value) Value {
		if isIface(r.t) {
			return r.v
		}
		return Value{x: &IfaceV{t: r.t, v: r.v}}
	})
	M("Elem", func(p *Path, r *rvalObj, a []Value) Value {
		if isIface(r.t) {
			i := r.v.ifc()
			if i == nil {
				return Value{x: &StructV{f: []Value{nilPtr, nilPtr, cu(0)}}}
			}
			return p.rval(i.t, i.v)
		}
		if pt, ok := r.t.Underlying().(*types.Pointer); ok {
			if r.v.ptr() == nil {
				return Value{x: &StructV{f: []Value{nilPtr, nilPtr, cu(0)}}}
			}
			return p.rval(pt.Elem(), p.load(r.v.ptr()))
		}
		unsup("reflect.Value.Elem on " + r.t.String())
		return Value{}
	})
	sc := func(p *Path, r *rvalObj, a []Value) Value { return to64(r.v, r.t) }
	M("Int", sc)
	M("Uint", sc)
	M("Bool", func(p *Path, r *rvalObj, a []Value) Value { return r.v })
	M("String", func(p *Path, r *rvalObj, a []Value) Value { return r.v })
	M("Float", func(p *Path, r *rvalObj, a []Value) Value {
		if w, _ := scalarW(r.t); w == 32 {
			return fromT(mkF(OF32to64, 64, r.v.term(32)))
		}
		return r.v
	})
	M("Bytes", func(p *Path, r *rvalObj, a []Value) Value { return r.v })
	M("NumField", func(p *Path, r *rvalObj, a []Value) Value {
		return ci(r.t.Underlying().(*types.Struct).NumFields())
	})
	M("Field", func(p *Path, r *rvalObj, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		i := int(p.conc(a[0], 64))
		return p.rval(st.Field(i).Type(), r.v.x.(*StructV).f[i])
	})
	valSlice := func(p *Path, vs []Value) Value {
		g := &GArr{n: ci(len(vs)), e: vs, et: p.eng.stdType("reflect", "Value")}
		return Value{x: &SliceV{arr: g, off: cu(0), len: ci(len(vs)), cap: ci(len(vs))}}
	}
	M("MapKeys", func(p *Path, r *rvalObj, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		it := newMapIter(p, r.v.x.(*MapV), mt)
		var vs []Value
		for {
			t := it.next(p).x.(TupleV)
			if t[0].u == 0 {
				break
			}
			vs = append(vs, p.rval(mt.Key(), t[1]))
		}
		return valSlice(p, vs)
	})
	M("MapIndex", func(p *Path, r *rvalObj, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		v, ok := p.mapGet(r.v.x.(*MapV), rvalOf(a[0]).v)
		if !ok {
			return Value{x: &StructV{f: []Value{nilPtr, nilPtr, cu(0)}}}
		}
		return p.rval(mt.Elem(), v)
	})
	// kind and type strings
	I["(reflect.Kind).String"] = func(p *Path, fr *frame, a []Value) Value { return str("kind") }
	I["reflect.DeepEqual"] = func(p *Path, fr *frame, a []Value) Value {
		return fromT(p.deepEq(types.NewInterfaceType(nil, nil), a[0], a[1]))
	}
}

func (p *Path) deepEq(t types.Type, a, b Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, y := a.ifc(), b.ifc()
		if x == nil || y == nil {
			return boolT(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		return p.deepEq(x.t, x.v, y.v)
	case *types.Slice:
		x, y := a.sl(), b.sl()
		if (x.arr == nil) != (y.arr == nil) {
			return tFalse
		}
		if x.arr == nil {
			return tTrue
		}
		if w, ok := sarrElem(u.Elem()); ok && w == 8 {
			return p.strEq(bytesOf(a), bytesOf(b))
		}
		le := veq(x.len, y.len)
		if !p.decide(le) {
			return tFalse
		}
		n := p.conc(x.len, 64)
		r := tTrue
		at := func(s *SliceV, i uint64) Value {
			switch ar := s.arr.(type) {
			case *SArr:
				return ar.read(vadd(s.off, cu(i)))
			case *GArr:
				return *ar.at(int(p.conc(vadd(s.off, cu(i)), 64)))
			}
			return Value{}
		}
		for i := uint64(0); i < n; i++ {
			r = mkAnd(r, p.deepEq(u.Elem(), at(x, i), at(y, i)))
		}
		return r
	case *types.Map:
		x, y := a.x.(*MapV), b.x.(*MapV)
		if (x == nil) != (y == nil) {
			return tFalse
		}
		if x == nil {
			return tTrue
		}
		if x.live != y.live {
			return tFalse
		}
		r := tTrue
		for i := range x.keys {
			if x.dead[i] {
				continue
			}
			v, ok := p.mapGet(y, x.keys[i])
			if !ok {
				return tFalse
			}
			r = mkAnd(r, p.deepEq(u.Elem(), x.vals[i], v))
		}
		return r
	case *types.Struct:
		x, y := a.x.(*StructV), b.x.(*StructV)
		r := tTrue
		for i := range x.f {
			r = mkAnd(r, p.deepEq(u.Field(i).Type(), x.f[i], y.f[i]))
		}
		return r
	case *types.Pointer:
		x, y := a.ptr(), b.ptr()
		if x == nil || y == nil {
			return boolT(x == nil && y == nil)
		}
		return p.deepEq(u.Elem(), p.load(x), p.load(y))
	}
	return p.eqVal(t, a, b)
}
