package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type binFn func(p *Path, a, b Value) Value

func binop(op token.Token, xt, yt types.Type) binFn {
	if op == token.EQL || op == token.NEQ {
		neg := op == token.NEQ
		if w, ok := scalarW(xt); ok && !isFloat(xt) {
			return func(p *Path, a, b Value) Value {
				if a.x == nil && b.x == nil {
					return cb((a.u == b.u) != neg)
				}
				t := mkEq(a.term(w), b.term(w))
				if neg {
					t = mkNot(t)
				}
				return fromT(t)
			}
		}
		return func(p *Path, a, b Value) Value {
			t := p.eqVal(xt, a, b)
			if neg {
				t = mkNot(t)
			}
			return fromT(t)
		}
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return func(p *Path, a, b Value) Value { return p.strConcat(a.str(), b.str()) }
		case token.LSS:
			return func(p *Path, a, b Value) Value { return cb(p.strCmp(a.str(), b.str()) < 0) }
		case token.LEQ:
			return func(p *Path, a, b Value) Value { return cb(p.strCmp(a.str(), b.str()) <= 0) }
		case token.GTR:
			return func(p *Path, a, b Value) Value { return cb(p.strCmp(a.str(), b.str()) > 0) }
		case token.GEQ:
			return func(p *Path, a, b Value) Value { return cb(p.strCmp(a.str(), b.str()) >= 0) }
		}
	}
	w, ok := scalarW(xt)
	if !ok {
		unsup(fmt.Sprintf("binary %s on %s", op, xt))
	}
	if isFloat(xt) {
		f := func(o Op, rw uint8, swap bool) binFn {
			return func(p *Path, a, b Value) Value {
				if swap {
					a, b = b, a
				}
				return fromT(mkF(o, rw, a.term(w), b.term(w)))
			}
		}
		switch op {
		case token.ADD:
			return f(OFAdd, w, false)
		case token.SUB:
			return f(OFSub, w, false)
		case token.MUL:
			return f(OFMul, w, false)
		case token.QUO:
			return f(OFDiv, w, false)
		case token.LSS:
			return f(OFLt, 0, false)
		case token.LEQ:
			return f(OFLe, 0, false)
		case token.GTR:
			return f(OFLt, 0, true)
		case token.GEQ:
			return f(OFLe, 0, true)
		}
		unsup("float op " + op.String())
	}
	sg := isSigned(xt)
	m := mask(w)
	cmp := func(o token.Token) binFn {
		return func(p *Path, a, b Value) Value {
			if a.x == nil && b.x == nil {
				if sg {
					x, y := sgn(w, a.u), sgn(w, b.u)
					switch o {
					case token.LSS:
						return cb(x < y)
					case token.LEQ:
						return cb(x <= y)
					case token.GTR:
						return cb(x > y)
					}
					return cb(x >= y)
				}
				switch o {
				case token.LSS:
					return cb(a.u < b.u)
				case token.LEQ:
					return cb(a.u <= b.u)
				case token.GTR:
					return cb(a.u > b.u)
				}
				return cb(a.u >= b.u)
			}
			x, y := a.term(w), b.term(w)
			if o == token.GTR || o == token.GEQ {
				x, y = y, x
			}
			strict := o == token.LSS || o == token.GTR
			switch {
			case sg && strict:
				return fromT(mkSlt(x, y))
			case sg:
				return fromT(mkSle(x, y))
			case strict:
				return fromT(mkUlt(x, y))
			}
			return fromT(mkUle(x, y))
		}
	}
	arith := func(c func(a, b uint64) uint64, s func(a, b *Term) *Term) binFn {
		return func(p *Path, a, b Value) Value {
			if a.x == nil && b.x == nil {
				return cu(c(a.u, b.u) & m)
			}
			return fromT(s(a.term(w), b.term(w)))
		}
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return cmp(op)
	case token.ADD:
		return arith(func(a, b uint64) uint64 { return a + b }, mkAdd)
	case token.SUB:
		return arith(func(a, b uint64) uint64 { return a - b }, mkSub)
	case token.MUL:
		return arith(func(a, b uint64) uint64 { return a * b }, mkMul)
	case token.AND:
		if w == 0 {
			return arith(func(a, b uint64) uint64 { return a & b }, mkAnd)
		}
		return arith(func(a, b uint64) uint64 { return a & b }, mkBAnd)
	case token.OR:
		if w == 0 {
			return arith(func(a, b uint64) uint64 { return a | b }, mkOr)
		}
		return arith(func(a, b uint64) uint64 { return a | b }, mkBOr)
	case token.XOR:
		return arith(func(a, b uint64) uint64 { return a ^ b }, mkBXor)
	case token.AND_NOT:
		return arith(func(a, b uint64) uint64 { return a &^ b }, func(a, b *Term) *Term {
			nb := mkSub(mkSub(bv(w, 0), b), bv(w, 1))
			if b.isConst() {
				nb = bv(w, ^b.k)
			}
			return mkBAnd(a, nb)
		})
	case token.QUO, token.REM:
		return func(p *Path, a, b Value) Value {
			p.rtcheck(mkNot(mkEq(b.term(w), bv(w, 0))), "integer divide by zero")
			x, y := a.term(w), b.term(w)
			switch {
			case op == token.QUO && sg:
				return fromT(mkSDiv(x, y))
			case op == token.QUO:
				return fromT(mkUDiv(x, y))
			case sg:
				return fromT(mkSRem(x, y))
			}
			return fromT(mkURem(x, y))
		}
	case token.SHL, token.SHR:
		yw, _ := scalarW(yt)
		ysg := isSigned(yt)
		return func(p *Path, a, b Value) Value {
			if ysg {
				if b.x == nil {
					if sgn(yw, b.u) < 0 {
						p.rtpanic("negative shift amount")
					}
				} else {
					p.rtcheck(mkSle(bv(yw, 0), b.term(yw)), "negative shift amount")
				}
			}
			// shift amounts: saturate to width
			var sh *Term
			if b.x == nil {
				k := b.u
				if k > 255 {
					k = 255
				}
				if a.x == nil {
					switch {
					case op == token.SHL:
						if k >= uint64(w) {
							return cu(0)
						}
						return cu(a.u << k & m)
					case sg:
						if k > 63 {
							k = 63
						}
						return cu(uint64(sgn(w, a.u)>>k) & m)
					}
					if k >= uint64(w) {
						return cu(0)
					}
					return cu(a.u >> k)
				}
				if op == token.SHR && sg && k >= uint64(w) {
					k = uint64(w) - 1
				}
				if k >= uint64(w) {
					return cu(0)
				}
				sh = bv(w, k)
			} else {
				bt := b.term(yw)
				if yw > w {
					big := mkUle(bv(yw, uint64(w)), bt)
					sh = mkIte(big, bv(w, min(uint64(w), m)), mkExtract(bt, 0, w))
				} else {
					sh = mkZext(bt, w)
				}
			}
			x := a.term(w)
			switch {
			case op == token.SHL:
				return fromT(mkShl(x, sh))
			case sg:
				return fromT(mkAshr(x, sh))
			}
			return fromT(mkLshr(x, sh))
		}
	}
	unsup("binop " + op.String())
	return nil
}

// ---- equality ----

func (p *Path) eqVal(t types.Type, a, b Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return p.strEq(a.str(), b.str())
		}
		if u.Kind() == types.UnsafePointer {
			return p.ptrEq(a, b)
		}
		w, _ := scalarW(t)
		if u.Info()&types.IsFloat != 0 {
			return mkF(OFEq, 0, a.term(w), b.term(w))
		}
		return mkEq(a.term(w), b.term(w))
	case *types.Pointer:
		return p.ptrEq(a, b)
	case *types.Chan:
		return boolT(a.x.(*ChanV) == b.x.(*ChanV))
	case *types.Map:
		return boolT(a.x.(*MapV) == b.x.(*MapV))
	case *types.Signature:
		x, y := a.x.(*FuncV), b.x.(*FuncV)
		return boolT(x == nil && y == nil || x == y)
	case *types.Slice:
		x, y := a.sl(), b.sl()
		if x.arr == nil || y.arr == nil {
			return boolT(x.arr == nil && y.arr == nil)
		}
		unsup("slice comparison")
	case *types.Interface:
		x, y := a.ifc(), b.ifc()
		if x == nil || y == nil {
			return boolT(x == nil && y == nil)
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return tFalse
		}
		if n, ok := x.v.x.(nativeEq); ok {
			return boolT(n.eq(y.v.x))
		}
		if !types.Comparable(x.t) {
			p.rtpanic("comparing uncomparable type " + x.t.String())
		}
		return p.eqVal(x.t, x.v, y.v)
	case *types.Struct:
		x, y := a.x.(*StructV), b.x.(*StructV)
		r := tTrue
		for i := range x.f {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = mkAnd(r, p.eqVal(u.Field(i).Type(), x.f[i], y.f[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		r := tTrue
		for i := 0; i < int(u.Len()); i++ {
			var x, y Value
			switch s := a.x.(type) {
			case *SArr:
				x, y = s.read(ci(i)), b.x.(*SArr).read(ci(i))
			case *GArr:
				x, y = *s.at(i), *b.x.(*GArr).at(i)
			}
			r = mkAnd(r, p.eqVal(u.Elem(), x, y))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	unsup("comparison of " + t.String())
	return nil
}

type nativeEq interface{ eq(o any) bool }

func (p *Path) ptrEq(a, b Value) *Term {
	x, ok1 := a.x.(*Ptr)
	y, ok2 := b.x.(*Ptr)
	if !ok1 || !ok2 {
		return boolT(a.x == b.x)
	}
	if x == nil || y == nil {
		return boolT(x == nil && y == nil)
	}
	if x.c != y.c || x.i != y.i {
		return tFalse
	}
	return veq(x.idx, y.idx)
}

// ---- strings ----

func (s *StrV) length() Value {
	if s.conc {
		return ci(len(s.s))
	}
	return s.n
}

func (s *StrV) snapOff() (*snap, Value) {
	if s.conc {
		return snapStr(s.s), cu(0)
	}
	return s.sn, s.off
}

func (p *Path) strAt(s *StrV, i Value) Value {
	if s.conc {
		if i.conc() {
			return cu(uint64(s.s[i.u]))
		}
		return snapStr(s.s).read(i)
	}
	return s.sn.read(vadd(s.off, i))
}

func (p *Path) substr(s *StrV, lo, hi Value) Value {
	if s.conc && lo.conc() && hi.conc() {
		return str(s.s[lo.u:hi.u])
	}
	n := vsub(hi, lo)
	if n.conc() && n.u == 0 {
		return emptyStr
	}
	sn, off := s.snapOff()
	return p.mkStr(sn, vadd(off, lo), n)
}

// mkStr normalises to a concrete string when everything is concrete.
func (p *Path) mkStr(sn *snap, off, n Value) Value {
	if n.conc() {
		if n.u == 0 {
			return emptyStr
		}
		if off.conc() && n.u <= 1<<20 {
			if sn.kind == lStr && off.u+n.u <= uint64(len(sn.s)) {
				return str(sn.s[off.u : off.u+n.u])
			}
			buf := make([]byte, n.u)
			ok := true
			for i := range buf {
				v := sn.read(cu(off.u + uint64(i)))
				if !v.conc() {
					ok = false
					break
				}
				buf[i] = byte(v.u)
			}
			if ok {
				return str(string(buf))
			}
		}
	}
	return Value{x: &StrV{sn: sn, off: off, n: n}}
}

func (p *Path) strEq(a, b *StrV) *Term {
	if a.conc && b.conc {
		return boolT(a.s == b.s)
	}
	return p.seqEq(a, b)
}

const maxExpand = 400

func (p *Path) seqEq(a, b *StrV) *Term {
	la, lb := a.length(), b.length()
	le := veq(la, lb)
	if le.isFalse() {
		return tFalse
	}
	sa, oa := a.snapOff()
	sb, ob := b.snapOff()
	if sa == sb && veq(oa, ob).isTrue() {
		return le
	}
	if !le.isTrue() && !p.decide(le) {
		return tFalse
	}
	// equal lengths from here on
	n := la
	if !n.conc() && lb.conc() {
		n = lb
	}
	if n.conc() {
		if n.u > 200000 {
			unsup("comparison of long strings")
		}
		r := tTrue
		for i := uint64(0); i < n.u; i++ {
			x, y := sa.read(vadd(oa, cu(i))), sb.read(vadd(ob, cu(i)))
			r = mkAnd(mkEq(x.term(8), y.term(8)), r)
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	mx := n.term(64).umax
	if lb.term(64).umax < mx {
		mx = lb.term(64).umax
	}
	if mx > maxExpand {
		// the path condition usually bounds the length much better
		k := p.conc(n, 64)
		n = cu(k)
		if k > 200000 {
			unsup("comparison of long symbolic strings")
		}
		mx = k
	}
	r := tTrue
	for i := uint64(0); i < mx; i++ {
		in := vult(cu(i), n)
		if in.isFalse() {
			break
		}
		x, y := sa.read(vadd(oa, cu(i))), sb.read(vadd(ob, cu(i)))
		r = mkAnd(mkOr(mkNot(in), mkEq(x.term(8), y.term(8))), r)
	}
	return r
}

func (p *Path) strCmp(a, b *StrV) int {
	if a.conc && b.conc {
		return strings.Compare(a.s, b.s)
	}
	for i := uint64(0); ; i++ {
		ea, eb := !p.decide(vult(cu(i), a.length())), !p.decide(vult(cu(i), b.length()))
		if ea && eb {
			return 0
		}
		if ea {
			return -1
		}
		if eb {
			return 1
		}
		x, y := p.strAt(a, cu(i)).term(8), p.strAt(b, cu(i)).term(8)
		if p.decide(mkEq(x, y)) {
			continue
		}
		if p.decide(mkUlt(x, y)) {
			return -1
		}
		return 1
	}
}

func (p *Path) strConcat(a, b *StrV) Value {
	if a.conc && b.conc {
		return str(a.s + b.s)
	}
	la, lb := a.length(), b.length()
	if la.conc() && la.u == 0 {
		return Value{x: b}
	}
	if lb.conc() && lb.u == 0 {
		return Value{x: a}
	}
	arr := newSArr(8)
	sa, oa := a.snapOff()
	sb, ob := b.snapOff()
	arr.bulk(cu(0), sa, oa, la)
	arr.bulk(la, sb, ob, lb)
	return p.mkStr(arr.freeze(), cu(0), vadd(la, lb))
}

type strIter struct {
	s   *StrV
	pos uint64
}

func (it *strIter) next(p *Path) Value {
	n := it.s.length()
	if !p.decide(vult(cu(it.pos), n)) {
		return Value{x: TupleV{cu(0), cu(0), cu(0)}}
	}
	at := it.pos
	if it.s.conc {
		r, sz := utf8.DecodeRuneInString(it.s.s[at:])
		it.pos += uint64(sz)
		return Value{x: TupleV{cu(1), cu(at), cu(uint64(uint32(r)))}}
	}
	b := p.strAt(it.s, cu(at)).term(8)
	if p.decide(mkUlt(b, bv(8, 0x80))) {
		it.pos++
		return Value{x: TupleV{cu(1), cu(at), fromT(mkZext(b, 32))}}
	}
	// multi-byte: execute the library's decoder
	rest := p.substr(it.s, cu(at), n)
	f := p.eng.stdFunc("unicode/utf8", "DecodeRuneInString")
	r := p.callFn(p.curFrame(), f, []Value{rest}, nil).x.(TupleV)
	it.pos += p.conc(r[1], 64)
	return Value{x: TupleV{cu(1), cu(at), r[0]}}
}

// ---- conversions ----

func convert(from, to types.Type) func(p *Path, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fw, fs := scalarW(from)
	tw, ts := scalarW(to)
	if fs && ts {
		ff, tf := isFloat(from), isFloat(to)
		switch {
		case !ff && !tf:
			sg := isSigned(from)
			return func(p *Path, v Value) Value {
				if v.x == nil {
					if sg {
						return cu(uint64(sgn(fw, v.u)) & mask(tw))
					}
					return cu(v.u & mask(tw))
				}
				t := v.x.(*Term)
				switch {
				case tw == fw:
					return v
				case tw < fw:
					return fromT(mkExtract(t, 0, tw))
				case sg:
					return fromT(mkSext(t, tw))
				}
				return fromT(mkZext(t, tw))
			}
		case ff && tf:
			if fw == tw {
				return func(p *Path, v Value) Value { return v }
			}
			if fw == 32 {
				return func(p *Path, v Value) Value { return fromT(mkF(OF32to64, 64, v.term(32))) }
			}
			return func(p *Path, v Value) Value { return fromT(mkF(OF64to32, 32, v.term(64))) }
		case tf:
			if isSigned(from) {
				return func(p *Path, v Value) Value { return fromT(mkF(OFromS, tw, v.term(fw))) }
			}
			return func(p *Path, v Value) Value { return fromT(mkF(OFromU, tw, v.term(fw))) }
		default:
			return func(p *Path, v Value) Value {
				if v.conc() {
					f := f64of(fw, v.u)
					if isSigned(to) {
						return cu(uint64(int64(f)) & mask(tw))
					}
					return cu(uint64(f) & mask(tw))
				}
				// inside the range of the type; outside it the result depends on the machine
				x := v.term(fw)
				lo, hi := 0.0, math.Ldexp(1, int(tw))
				if isSigned(to) {
					lo, hi = -math.Ldexp(1, int(tw)-1), math.Ldexp(1, int(tw)-1)
				} else if tw == 64 {
					hi = math.Ldexp(1, 63)
				}
				in := mkAnd(mkF(OFLe, 0, bv(fw, bitsOf(fw, lo)), x), mkF(OFLt, 0, x, bv(fw, bitsOf(fw, hi))))
				if !p.decide(in) {
					if isSigned(to) && tw == 64 {
						return cu(1 << 63)
					}
					unsup("symbolic float to integer conversion outside the integer's range")
				}
				return fromT(mkExtract(mkF(OToS, 64, x), 0, tw))
			}
		}
	}
	if isString(from) {
		if sl, ok := tu.(*types.Slice); ok {
			if w, _ := scalarW(sl.Elem()); w == 8 {
				return func(p *Path, v Value) Value { return p.strToBytes(v.str()) }
			}
			return func(p *Path, v Value) Value {
				it := &strIter{s: v.str()}
				arr := newSArr(32)
				n := uint64(0)
				for {
					r := it.next(p).x.(TupleV)
					if r[0].u == 0 {
						break
					}
					arr.write(cu(n), r[2])
					n++
				}
				return Value{x: &SliceV{arr: arr, off: cu(0), len: cu(n), cap: cu(n)}}
			}
		}
		if isString(to) {
			return func(p *Path, v Value) Value { return v }
		}
	}
	if isString(to) {
		if sl, ok := fu.(*types.Slice); ok {
			if w, _ := scalarW(sl.Elem()); w == 8 {
				return func(p *Path, v Value) Value { return p.bytesToStr(v.sl()) }
			}
			return func(p *Path, v Value) Value {
				s := v.sl()
				n := p.conc(s.len, 64)
				out := ""
				for i := uint64(0); i < n; i++ {
					r := s.arr.(*SArr).read(vadd(s.off, cu(i)))
					out += string(rune(int32(p.conc(r, 32))))
				}
				return str(out)
			}
		}
		if fs {
			sg := isSigned(from)
			return func(p *Path, v Value) Value {
				if v.conc() {
					k := int64(v.u)
					if sg {
						k = sgn(fw, v.u)
					}
					if k < 0 || k > 0x10FFFF {
						k = 0xFFFD
					}
					return str(string(rune(k)))
				}
				t := v.term(fw)
				if p.decide(mkUlt(t, bv(fw, 0x80))) {
					arr := newSArr(8)
					b := t
					if fw > 8 {
						b = mkExtract(t, 0, 8)
					}
					arr.write(cu(0), fromT(b))
					return p.mkStr(arr.freeze(), cu(0), cu(1))
				}
				k := p.concretise(t, fw)
				return str(string(rune(int32(k))))
			}
		}
	}
	// pointers / unsafe pointers: representation is shared
	if types.Identical(fu, tu) {
		return func(p *Path, v Value) Value { return v }
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(p *Path, v Value) Value { return v }
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(p *Path, v Value) Value { return v }
	}
	unsup(fmt.Sprintf("conversion %s -> %s", from, to))
	return nil
}

func (p *Path) strToBytes(s *StrV) Value {
	n := s.length()
	arr := newSArr(8)
	sn, off := s.snapOff()
	if s.conc {
		if len(s.s) > 0 {
			arr.base = sn
		}
	} else {
		arr.bulk(cu(0), sn, off, n)
	}
	return Value{x: &SliceV{arr: arr, off: cu(0), len: n, cap: n}}
}

func (p *Path) bytesToStr(s *SliceV) Value {
	if s.arr == nil {
		return emptyStr
	}
	if s.len.conc() && s.len.u == 0 {
		return emptyStr
	}
	p.raceRange(s.arr.(*SArr), s.off, s.len, false, false)
	return p.mkStr(s.arr.(*SArr).freeze(), s.off, s.len)
}

// ---- slices ----

func elemSize(t types.Type) uint64 {
	return uint64(max(stdSizes.Sizeof(t), 1))
}

var stdSizes = types.SizesFor("gc", "amd64")

// checkAlloc: allocation bound requested by the harness.
func (p *Path) checkAlloc(n Value, sz uint64) {
	if p.allocTot > 0 {
		p.allocSum = vadd(p.allocSum, vmul(n, cu(sz)))
		p.assertT(vule(p.allocSum, cu(p.allocTot)), fmt.Sprintf("allocations larger than the harness limit of %d bytes in sum", p.allocTot))
	}
	if p.allocLim == 0 {
		return
	}
	c := mkOr(vule(n, cu(p.allocLim/sz)), mkSlt(n.term(64), bv(64, 0)))
	p.assertT(c, fmt.Sprintf("allocation larger than the harness limit of %d bytes", p.allocLim))
}

func (p *Path) makeSlice(et types.Type, n, c Value) Value {
	sz := elemSize(et)
	lim := uint64(1) << 47 / sz
	p.rtcheck(vule(n, cu(lim)), "makeslice: len out of range")
	p.rtcheck(mkAnd(vule(c, cu(lim)), vule(n, c)), "makeslice: cap out of range")
	p.checkAlloc(c, sz)
	return Value{x: &SliceV{arr: newArray(et, c), off: cu(0), len: n, cap: c}}
}

func (p *Path) growCap(oldCap, need Value) Value {
	if oldCap.conc() && need.conc() {
		nc := oldCap.u
		if need.u > 2*nc {
			nc = need.u
		} else if nc < 256 {
			nc *= 2
		} else {
			for nc < need.u {
				nc += (nc + 768) / 4
			}
		}
		// round to 8 as a stand-in for size classes
		return cu((nc + 7) &^ 7)
	}
	return need
}

func (p *Path) appendSlice(t types.Type, s *SliceV, add *SliceV, addStr *StrV) Value {
	et := t.Underlying().(*types.Slice).Elem()
	var n Value
	if addStr != nil {
		n = addStr.length()
	} else {
		n = add.len
	}
	if n.conc() && n.u == 0 {
		return Value{x: s}
	}
	if s.arr == nil {
		s = &SliceV{arr: nil, off: cu(0), len: cu(0), cap: cu(0)}
	}
	nl := vadd(s.len, n)
	arr, off, cp := s.arr, s.off, s.cap
	if arr == nil || !p.decide(vule(nl, s.cap)) {
		cp = p.growCap(s.cap, nl)
		p.checkAlloc(cp, elemSize(et))
		na := newArray(et, cp)
		if arr != nil {
			p.copyElems(na, cu(0), arr, s.off, s.len)
		}
		arr, off = na, cu(0)
	}
	dst := vadd(off, s.len)
	if addStr != nil {
		sn, so := addStr.snapOff()
		p.raceRange(arr.(*SArr), dst, n, true, false)
		arr.(*SArr).bulk(dst, sn, so, n)
	} else if add.arr != nil {
		p.copyElems(arr, dst, add.arr, add.off, n)
	}
	return Value{x: &SliceV{arr: arr, off: off, len: nl, cap: cp}}
}

func (p *Path) copyElems(dst any, doff Value, src any, soff, n Value) {
	switch d := dst.(type) {
	case *SArr:
		s := src.(*SArr)
		p.raceRange(s, soff, n, false, false)
		p.raceRange(d, doff, n, true, false)
		d.bulk(doff, s.freeze(), soff, n)
	case *GArr:
		s := src.(*GArr)
		k := int(p.conc(n, 64))
		do, so := int(p.conc(doff, 64)), int(p.conc(soff, 64))
		vals := make([]Value, 0, k)
		for i := 0; i < k; i++ {
			if so+i >= len(s.e) {
				vals = append(vals, zero(s.et))
			} else {
				vals = append(vals, loadVal(s.e[so+i]))
			}
		}
		if p.race != nil && p.noRace == 0 {
			for i := 0; i < k; i++ {
				p.raceAccess(&Ptr{c: s, idx: ci(so + i)}, false)
				p.raceAccess(&Ptr{c: d, idx: ci(do + i)}, true)
			}
		}
		for i, v := range vals {
			assign(d.at(do+i), v)
		}
	}
}

func (p *Path) minV(a, b Value) Value {
	if a.conc() && b.conc() {
		return cu(min(a.u, b.u))
	}
	if p.decide(vule(a, b)) {
		return a
	}
	return b
}

// ---- maps ----

func newMap(mt *types.Map) *MapV {
	return &MapV{kt: mt.Key(), vt: mt.Elem(), idx: map[string]int{}}
}

// mapKey renders a concrete key; ok=false when the key is symbolic.
func mapKey(t types.Type, v Value) (string, bool) {
	switch x := v.x.(type) {
	case nil:
		return fmt.Sprintf("%d", v.u), true
	case *StrV:
		if x.conc {
			return "s" + x.s, true
		}
		return "", false
	case *IfaceV:
		if x == nil {
			return "nil", true
		}
		if !types.Comparable(x.t) {
			panic(unsupported{"uncomparable interface map key"})
		}
		k, ok := mapKey(x.t, x.v)
		return types.TypeString(x.t, nil) + ":" + k, ok
	case *StructV:
		st := t.Underlying().(*types.Struct)
		out := "{"
		for i, f := range x.f {
			k, ok := mapKey(st.Field(i).Type(), f)
			if !ok {
				return "", false
			}
			out += k + ","
		}
		return out + "}", true
	case *Ptr:
		if x == nil {
			return "p0", true
		}
		if x.idx.x != nil {
			return "", false
		}
		return fmt.Sprintf("p%p.%d.%d", x.c, x.i, x.idx.u), true
	case *ChanV:
		return fmt.Sprintf("c%p", x), true
	case nativeObj:
		return fmt.Sprintf("n%v", x), true
	}
	return "", false
}

func (p *Path) mapFind(m *MapV, k Value) int {
	key, ok := mapKey(m.kt, k)
	if ok && !m.symKeys {
		if i, ok := m.idx[key]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		if p.decide(p.eqVal(m.kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (p *Path) mapGet(m *MapV, k Value) (Value, bool) {
	if m == nil {
		return Value{}, false
	}
	if p.race != nil && p.noRace == 0 {
		p.raceObj(m, false)
	}
	i := p.mapFind(m, k)
	if i < 0 {
		return Value{}, false
	}
	return m.vals[i], true
}

func (p *Path) mapSet(m *MapV, k, v Value) {
	if p.race != nil && p.noRace == 0 {
		p.raceObj(m, true)
	}
	i := p.mapFind(m, k)
	v = copyVal(v)
	if i >= 0 {
		m.vals[i] = v
		return
	}
	key, ok := mapKey(m.kt, k)
	if !ok {
		m.symKeys = true
	} else {
		m.idx[key] = len(m.keys)
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.dead = append(m.dead, false)
	m.live++
}

func (p *Path) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	if p.race != nil && p.noRace == 0 {
		p.raceObj(m, true)
	}
	i := p.mapFind(m, k)
	if i < 0 {
		return
	}
	if key, ok := mapKey(m.kt, m.keys[i]); ok {
		delete(m.idx, key)
	}
	m.dead[i] = true
	m.live--
}

type mapIter struct {
	m     *MapV
	order []int
	pos   int
	mt    *types.Map
}

func newMapIter(p *Path, m *MapV, mt *types.Map) *mapIter {
	it := &mapIter{m: m, mt: mt}
	if m == nil {
		return it
	}
	if p.race != nil && p.noRace == 0 {
		p.raceObj(m, false)
	}
	for i := range m.keys {
		if !m.dead[i] {
			it.order = append(it.order, i)
		}
	}
	if p.mapOrder && len(it.order) > 1 && len(it.order) <= 4 {
		// any permutation, chosen symbolically
		rest := it.order
		var out []int
		for len(rest) > 0 {
			k := p.choose(len(rest), "maporder")
			out = append(out, rest[k])
			rest = append(append([]int{}, rest[:k]...), rest[k+1:]...)
		}
		it.order = out
	}
	return it
}

func (it *mapIter) next(p *Path) Value {
	for it.m != nil {
		if it.pos >= len(it.order) {
			break
		}
		i := it.order[it.pos]
		it.pos++
		if it.m.dead[i] {
			continue
		}
		return Value{x: TupleV{cu(1), it.m.keys[i], it.m.vals[i]}}
	}
	return Value{x: TupleV{cu(0), zero(it.mt.Key()), zero(it.mt.Elem())}}
}

// ---- builtins ----

func (p *Path) builtin(fr *frame, b *ssa.Builtin, a []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		return p.lenOf(a[0])
	case "cap":
		switch x := a[0].x.(type) {
		case *SliceV:
			if x.arr == nil {
				return cu(0)
			}
			return x.cap
		case *ChanV:
			if x == nil {
				return cu(0)
			}
			return ci(x.cap)
		}
		return p.lenOf(a[0])
	case "append":
		s := a[0].sl()
		if len(a) == 1 {
			return a[0]
		}
		if x, ok := a[1].x.(*StrV); ok {
			return p.appendSlice(c.Args[0].Type(), s, nil, x)
		}
		return p.appendSlice(c.Args[0].Type(), s, a[1].sl(), nil)
	case "copy":
		d := a[0].sl()
		if x, ok := a[1].x.(*StrV); ok {
			n := p.minV(lenS(d), x.length())
			if d.arr != nil {
				sn, so := x.snapOff()
				p.raceRange(d.arr.(*SArr), d.off, n, true, false)
				d.arr.(*SArr).bulk(d.off, sn, so, n)
			}
			return n
		}
		s := a[1].sl()
		if d.arr == nil || s.arr == nil {
			return cu(0)
		}
		n := p.minV(d.len, s.len)
		p.copyElems(d.arr, d.off, s.arr, s.off, n)
		return n
	case "delete":
		p.mapDelete(a[0].x.(*MapV), a[1])
		return Value{}
	case "clear":
		switch x := a[0].x.(type) {
		case *MapV:
			if x != nil {
				*x = MapV{kt: x.kt, vt: x.vt, idx: map[string]int{}}
			}
		case *SliceV:
			n := p.conc(lenS(x), 64)
			for i := uint64(0); i < n; i++ {
				switch ar := x.arr.(type) {
				case *SArr:
					ar.write(vadd(x.off, cu(i)), cu(0))
				case *GArr:
					*ar.at(int(p.conc(vadd(x.off, cu(i)), 64))) = zero(ar.et)
				}
			}
		}
		return Value{}
	case "close":
		p.chanClose(fr, a[0].x.(*ChanV))
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		return fr.doRecover()
	case "min", "max":
		t := c.Args[0].Type()
		r := a[0]
		lt := binop(token.LSS, t, t)
		w, isW := scalarW(t)
		for _, x := range a[1:] {
			l := lt(p, x, r)
			if b.Name() == "max" {
				l = lt(p, r, x)
			}
			if isW {
				r = fromT(mkIte(l.term(0), x.term(w), r.term(w)))
			} else if p.truth(l) {
				r = x
			}
		}
		return r
	case "String": // unsafe.String(ptr, len)
		pt := a[0].x.(*Ptr)
		n := to64(a[1], c.Args[1].Type())
		if pt == nil {
			return emptyStr
		}
		return p.mkStr(pt.c.(*SArr).freeze(), pt.idx, n)
	case "StringData":
		s := a[0].str()
		bs := p.strToBytes(s).sl()
		return Value{x: &Ptr{c: bs.arr, idx: cu(0)}}
	case "SliceData":
		s := a[0].sl()
		if s.arr == nil {
			return nilPtr
		}
		return Value{x: &Ptr{c: s.arr, idx: s.off}}
	case "Slice":
		pt := a[0].x.(*Ptr)
		n := to64(a[1], c.Args[1].Type())
		if pt == nil {
			return nilSlice
		}
		switch pt.c.(type) {
		case *SArr, *GArr:
			return Value{x: &SliceV{arr: pt.c, off: pt.idx, len: n, cap: n}}
		}
		unsup("unsafe.Slice of a scalar")
	case "ssa:wrapnilchk":
		if pt, ok := a[0].x.(*Ptr); ok && pt == nil {
			p.rtpanic("value method called using nil pointer")
		}
		return a[0]
	}
	unsup("builtin " + b.Name())
	return Value{}
}

func lenS(s *SliceV) Value {
	if s.arr == nil {
		return cu(0)
	}
	return s.len
}

func (p *Path) lenOf(v Value) Value {
	switch x := v.x.(type) {
	case *SliceV:
		return lenS(x)
	case *StrV:
		return x.length()
	case *MapV:
		if x == nil {
			return cu(0)
		}
		return ci(x.live)
	case *ChanV:
		if x == nil {
			return cu(0)
		}
		return ci(len(x.buf))
	case *GArr:
		return x.n
	}
	unsup(fmt.Sprintf("len of %T", v.x))
	return Value{}
}

// show renders a value for messages (best effort, concrete parts only).
func (e *Engine) show(t types.Type, v Value) string {
	switch x := v.x.(type) {
	case nil:
		if w, ok := scalarW(t); ok {
			if w == 0 {
				return fmt.Sprint(v.u == 1)
			}
			if isSigned(t) {
				return fmt.Sprint(sgn(w, v.u))
			}
			return fmt.Sprint(v.u)
		}
		return fmt.Sprint(v.u)
	case *Term:
		return "<sym>"
	case *StrV:
		if x.conc {
			return x.s
		}
		return "<symstr>"
	case *IfaceV:
		if x == nil {
			return "<nil>"
		}
		return e.show(x.t, x.v)
	case *StructV:
		return "<struct " + types.TypeString(t, nil) + ">"
	case *Ptr:
		if x == nil {
			return "<nil>"
		}
		return "<ptr " + types.TypeString(t, nil) + ">"
	}
	return fmt.Sprintf("<%s>", types.TypeString(t, nil))
}

var _ = sort.Strings
var _ = bits.Len
