package main

// Terms: immutable bit-vector / boolean expressions.  They carry a 128-bit
// structural hash (identity), an unsigned interval (cheap decisions), and are
// simplified when they are built.

import (
	"math"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OSel // select(array name, a0)
	ONot // boolean
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // k = lo
	OConcat
	OF32to64
	OF64to32
	OFLt // float compare, args same width
	OFLe
	OFEq
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFromS // signed int -> float (w = target, a0 width = source)
	OFromU
	OToS // float -> signed int
)

var opSMT = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
}

type Term struct {
	op         Op
	w          uint8 // 0 = Bool
	k          uint64
	a          [3]*Term
	name       string
	h1, h2     uint64
	umin, umax uint64
	iw         uint8 // index width unused
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return math.MaxUint64
	}
	return (uint64(1) << w) - 1
}

func mix(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a^0x9E3779B97F4A7C15, b^0xD1B54A32D192ED03)
	return hi ^ lo ^ (a << 7) ^ (b >> 3)
}

func mk(op Op, w uint8, k uint64, name string, a ...*Term) *Term {
	t := &Term{op: op, w: w, k: k, name: name, umin: 0, umax: mask(w)}
	if w == 0 {
		t.umax = 1
	}
	h1 := mix(uint64(op)<<8|uint64(w), k+0x1234567)
	h2 := mix(uint64(op)*0x51ED27+uint64(w), k^0xABCDEF987)
	for i := 0; i < len(name); i++ {
		h1 = mix(h1, uint64(name[i])+uint64(i)*257)
		h2 = mix(h2, uint64(name[i])*31+uint64(i))
	}
	for i, x := range a {
		t.a[i] = x
		h1 = mix(h1+uint64(i), x.h1)
		h2 = mix(h2, x.h2+uint64(i)*77)
	}
	t.h1, t.h2 = h1, h2
	return t
}

func same(a, b *Term) bool { return a == b || (a.h1 == b.h1 && a.h2 == b.h2) }

var constCache [65][1025]*Term

func init() {
	for _, w := range []uint8{0, 1, 8, 16, 32, 64} {
		for i := range constCache[w] {
			if w < 64 && uint64(i) > mask(w) && w != 0 {
				break
			}
			constCache[w][i] = newConst(w, uint64(i))
		}
	}
}

func newConst(w uint8, k uint64) *Term {
	t := mk(OConst, w, k, "")
	t.umin, t.umax = k, k
	return t
}

func bv(w uint8, k uint64) *Term {
	if w == 0 {
		return boolT(k&1 == 1)
	}
	k &= mask(w)
	if k <= 1024 {
		if t := constCache[w][k]; t != nil {
			return t
		}
	}
	return newConst(w, k)
}

var tTrue = newConst(0, 1)
var tFalse = newConst(0, 0)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

func mkVar(name string, w uint8, lo, hi uint64) *Term {
	t := mk(OVar, w, mix(lo, hi), name)
	if w > 0 {
		t.umin, t.umax = lo, hi
	}
	return t
}

func mkSel(arr string, w uint8, idx *Term) *Term { return mk(OSel, w, 0, arr, idx) }

func mkNot(a *Term) *Term {
	if a.isConst() {
		return boolT(a.k == 0)
	}
	switch a.op {
	case ONot:
		return a.a[0]
	case OUlt:
		return mkUle(a.a[1], a.a[0])
	case OUle:
		return mkUlt(a.a[1], a.a[0])
	case OSlt:
		return mkSle(a.a[1], a.a[0])
	case OSle:
		return mkSlt(a.a[1], a.a[0])
	}
	return mk(ONot, 0, 0, "", a)
}

func mkAnd(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || same(a, b) {
		return a
	}
	return mk(OAnd, 0, 0, "", a, b)
}

func mkOr(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || same(a, b) {
		return a
	}
	return mk(OOr, 0, 0, "", a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return mkNot(c)
		}
		if a.isTrue() {
			return mkOr(c, b)
		}
		if a.isFalse() {
			return mkAnd(mkNot(c), b)
		}
		if b.isTrue() {
			return mkOr(mkNot(c), a)
		}
		if b.isFalse() {
			return mkAnd(c, a)
		}
	}
	t := mk(OIte, a.w, 0, "", c, a, b)
	t.umin, t.umax = min(a.umin, b.umin), max(a.umax, b.umax)
	return t
}

func mkEq(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return boolT(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return mkNot(a)
		}
		return mk(OEq, 0, 0, "", a, b)
	}
	if a.umax < b.umin || b.umax < a.umin {
		return tFalse
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OAdd:
			if a.a[1].isConst() {
				return mkEq(a.a[0], bv(a.w, b.k-a.a[1].k))
			}
		case OZext:
			if b.k > mask(a.a[0].w) {
				return tFalse
			}
			return mkEq(a.a[0], bv(a.a[0].w, b.k))
		case OConcat:
			lw := a.a[1].w
			return mkAnd(mkEq(a.a[0], bv(a.a[0].w, b.k>>lw)), mkEq(a.a[1], bv(lw, b.k)))
		case OIte:
			if a.a[1].isConst() && a.a[2].isConst() {
				e1, e2 := a.a[1].k == b.k, a.a[2].k == b.k
				if e1 && !e2 {
					return a.a[0]
				}
				if e2 && !e1 {
					return mkNot(a.a[0])
				}
				if !e1 && !e2 {
					return tFalse
				}
			}
		}
	} else if a.op == OAdd && b.op == OAdd && a.a[1].isConst() && b.a[1].isConst() && a.a[1].k == b.a[1].k {
		return mkEq(a.a[0], b.a[0])
	} else if a.op == OConcat && b.op == OConcat && a.a[0].w == b.a[0].w {
		return mkAnd(mkEq(a.a[0], b.a[0]), mkEq(a.a[1], b.a[1]))
	} else if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
		return mkEq(a.a[0], b.a[0])
	} else if a.op == OSext && b.op == OSext && a.a[0].w == b.a[0].w {
		return mkEq(a.a[0], b.a[0])
	}
	if b.h1 < a.h1 && !b.isConst() {
		a, b = b, a
	}
	return mk(OEq, 0, 0, "", a, b)
}

func mkUlt(a, b *Term) *Term {
	if same(a, b) {
		return tFalse
	}
	if a.umax < b.umin {
		return tTrue
	}
	if a.umin >= b.umax {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return boolT(a.k < b.k)
	}
	if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
		return mkUlt(a.a[0], b.a[0])
	}
	if a.op == OZext && b.isConst() && b.k <= mask(a.a[0].w) {
		return mkUlt(a.a[0], bv(a.a[0].w, b.k))
	}
	if b.op == OZext && a.isConst() && a.k <= mask(b.a[0].w) {
		return mkUlt(bv(b.a[0].w, a.k), b.a[0])
	}
	if b.isConst() && b.k == 1 {
		return mkEq(a, bv(a.w, 0))
	}
	return mk(OUlt, 0, 0, "", a, b)
}

func mkUle(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if a.umax <= b.umin {
		return tTrue
	}
	if a.umin > b.umax {
		return tFalse
	}
	if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
		return mkUle(a.a[0], b.a[0])
	}
	if a.op == OZext && b.isConst() && b.k <= mask(a.a[0].w) {
		return mkUle(a.a[0], bv(a.a[0].w, b.k))
	}
	if b.op == OZext && a.isConst() && a.k <= mask(b.a[0].w) {
		return mkUle(bv(b.a[0].w, a.k), b.a[0])
	}
	return mk(OUle, 0, 0, "", a, b)
}

func sgn(w uint8, k uint64) int64 {
	return int64(k<<(64-w)) >> (64 - w)
}

func (t *Term) nonneg() bool { return t.umax < uint64(1)<<(t.w-1) }
func (t *Term) neg() bool    { return t.umin >= uint64(1)<<(t.w-1) }

func mkSlt(a, b *Term) *Term {
	if same(a, b) {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return boolT(sgn(a.w, a.k) < sgn(b.w, b.k))
	}
	if a.nonneg() && b.nonneg() || a.neg() && b.neg() {
		return mkUlt(a, b)
	}
	if a.nonneg() && b.neg() {
		return tFalse
	}
	if a.neg() && b.nonneg() {
		return tTrue
	}
	if a.op == OSext && b.op == OSext && a.a[0].w == b.a[0].w {
		return mkSlt(a.a[0], b.a[0])
	}
	if a.op == OSext && b.isConst() {
		if s := sgn(b.w, b.k); sgn(a.a[0].w, bv(a.a[0].w, b.k).k) == s {
			return mkSlt(a.a[0], bv(a.a[0].w, b.k))
		}
	}
	if b.op == OSext && a.isConst() {
		if s := sgn(a.w, a.k); sgn(b.a[0].w, bv(b.a[0].w, a.k).k) == s {
			return mkSlt(bv(b.a[0].w, a.k), b.a[0])
		}
	}
	return mk(OSlt, 0, 0, "", a, b)
}

func mkSle(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return boolT(sgn(a.w, a.k) <= sgn(b.w, b.k))
	}
	if a.nonneg() && b.nonneg() || a.neg() && b.neg() {
		return mkUle(a, b)
	}
	if a.nonneg() && b.neg() {
		return tFalse
	}
	if a.neg() && b.nonneg() {
		return tTrue
	}
	if a.op == OSext && b.op == OSext && a.a[0].w == b.a[0].w {
		return mkSle(a.a[0], b.a[0])
	}
	if a.op == OSext && b.isConst() {
		if s := sgn(b.w, b.k); sgn(a.a[0].w, bv(a.a[0].w, b.k).k) == s {
			return mkSle(a.a[0], bv(a.a[0].w, b.k))
		}
	}
	if b.op == OSext && a.isConst() {
		if s := sgn(a.w, a.k); sgn(b.a[0].w, bv(b.a[0].w, a.k).k) == s {
			return mkSle(bv(b.a[0].w, a.k), b.a[0])
		}
	}
	return mk(OSle, 0, 0, "", a, b)
}

func mkAdd(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return bv(w, a.k+b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.a[1].isConst() {
			return mkAdd(a.a[0], bv(w, a.a[1].k+b.k))
		}
	} else {
		// keep constants outermost
		if a.op == OAdd && a.a[1].isConst() {
			return mkAdd(mkAdd(a.a[0], b), a.a[1])
		}
		if b.op == OAdd && b.a[1].isConst() {
			return mkAdd(mkAdd(a, b.a[0]), b.a[1])
		}
		if b.op == OSub && same(b.a[1], a) {
			return b.a[0]
		}
		if a.op == OSub && same(a.a[1], b) {
			return a.a[0]
		}
		if b.h1 < a.h1 {
			a, b = b, a
		}
	}
	t := mk(OAdd, w, 0, "", a, b)
	s, c := bits.Add64(a.umax, b.umax, 0)
	if c == 0 && s <= mask(w) {
		t.umin, t.umax = a.umin+b.umin, s
	} else if b.isConst() {
		// adding a "negative" constant
		m := (^b.k + 1) & mask(w)
		if a.umin >= m {
			t.umin, t.umax = a.umin-m, a.umax-m
		}
	}
	return t
}

func mkSub(a, b *Term) *Term {
	w := a.w
	if same(a, b) {
		return bv(w, 0)
	}
	if b.isConst() {
		return mkAdd(a, bv(w, -b.k))
	}
	if a.isConst() && b.isConst() {
		return bv(w, a.k-b.k)
	}
	if a.op == OAdd {
		if same(a.a[0], b) {
			return a.a[1]
		}
		if same(a.a[1], b) {
			return a.a[0]
		}
		if a.a[1].isConst() {
			if b.op == OAdd && b.a[1].isConst() {
				return mkAdd(mkSub(a.a[0], b.a[0]), bv(w, a.a[1].k-b.a[1].k))
			}
			return mkAdd(mkSub(a.a[0], b), a.a[1])
		}
	}
	if b.op == OAdd {
		if same(b.a[0], a) {
			return mkSub(bv(w, 0), b.a[1])
		}
		if same(b.a[1], a) {
			return mkSub(bv(w, 0), b.a[0])
		}
		if b.a[1].isConst() {
			return mkAdd(mkSub(a, b.a[0]), bv(w, -b.a[1].k))
		}
	}
	if b.op == OSub && same(b.a[0], a) {
		return b.a[1]
	}
	if a.op == OSub && same(a.a[0], b) {
		return mkSub(bv(w, 0), a.a[1])
	}
	t := mk(OSub, w, 0, "", a, b)
	if a.umin >= b.umax {
		t.umin, t.umax = a.umin-b.umax, a.umax-b.umin
	}
	return t
}

func mkMul(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return bv(w, a.k*b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch b.k {
		case 0:
			return b
		case 1:
			return a
		}
		if b.k&(b.k-1) == 0 {
			return mkShl(a, bv(w, uint64(bits.TrailingZeros64(b.k))))
		}
	}
	t := mk(OMul, w, 0, "", a, b)
	hi, lo := bits.Mul64(a.umax, b.umax)
	if hi == 0 && lo <= mask(w) {
		t.umin, t.umax = a.umin*b.umin, lo
	}
	return t
}

func mkUDiv(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return bv(a.w, a.k/b.k)
		}
		if b.k&(b.k-1) == 0 {
			return mkLshr(a, bv(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		t := mk(OUDiv, a.w, 0, "", a, b)
		t.umin, t.umax = a.umin/b.k, a.umax/b.k
		return t
	}
	return mk(OUDiv, a.w, 0, "", a, b)
}

func mkURem(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return bv(a.w, a.k%b.k)
		}
		if a.umax < b.k {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return mkBAnd(a, bv(a.w, b.k-1))
		}
		t := mk(OURem, a.w, 0, "", a, b)
		t.umax = b.k - 1
		return t
	}
	return mk(OURem, a.w, 0, "", a, b)
}

func mkSDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := sgn(a.w, a.k), sgn(b.w, b.k)
		if y == -1 {
			return bv(a.w, uint64(-x))
		}
		return bv(a.w, uint64(x/y))
	}
	if a.nonneg() && b.nonneg() {
		return mkUDiv(a, b)
	}
	return mk(OSDiv, a.w, 0, "", a, b)
}

func mkSRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := sgn(a.w, a.k), sgn(b.w, b.k)
		if y == -1 {
			return bv(a.w, 0)
		}
		return bv(a.w, uint64(x%y))
	}
	if a.nonneg() && b.nonneg() {
		return mkURem(a, b)
	}
	return mk(OSRem, a.w, 0, "", a, b)
}

// ---- bit-slice normalisation ----

type piece struct {
	t  *Term // nil: constant k
	lo uint8
	w  uint8
	k  uint64
}

func pieces(t *Term) []piece { // high to low
	switch t.op {
	case OConst:
		return []piece{{nil, 0, t.w, t.k}}
	case OConcat:
		return append(pieces(t.a[0]), pieces(t.a[1])...)
	case OZext:
		return append([]piece{{nil, 0, t.w - t.a[0].w, 0}}, pieces(t.a[0])...)
	case OExtract:
		if x := t.a[0]; x.op == OConcat || x.op == OZext {
			return cut(pieces(x), uint8(t.k), t.w)
		}
		return []piece{{t.a[0], uint8(t.k), t.w, 0}}
	}
	return []piece{{t, 0, t.w, 0}}
}

// cut takes bits [lo, lo+w) of the concatenation ps.
func cut(ps []piece, lo, w uint8) []piece {
	total := uint8(0)
	for _, p := range ps {
		total += p.w
	}
	var out []piece
	top := total
	for _, p := range ps {
		pl := top - p.w // piece covers [pl, top)
		l, h := max(pl, lo), min(top, lo+w)
		if l < h {
			q := p
			q.w = h - l
			if p.t == nil {
				q.k = (p.k >> (l - pl)) & mask(q.w)
			} else {
				q.lo = p.lo + (l - pl)
			}
			out = append(out, q)
		}
		top = pl
	}
	return out
}

func rebuild(ps []piece) *Term {
	var m []piece
	for _, p := range ps {
		if p.w == 0 {
			continue
		}
		if n := len(m); n > 0 {
			q := &m[n-1]
			if q.t == nil && p.t == nil {
				q.k = q.k<<p.w | p.k
				q.w += p.w
				continue
			}
			if q.t != nil && p.t != nil && same(q.t, p.t) && q.lo == p.lo+p.w {
				q.lo = p.lo
				q.w += p.w
				continue
			}
		}
		m = append(m, p)
	}
	one := func(p piece) *Term {
		if p.t == nil {
			return bv(p.w, p.k)
		}
		return rawExtract(p.t, p.lo, p.w)
	}
	r := one(m[len(m)-1])
	for i := len(m) - 2; i >= 0; i-- {
		if m[i].t == nil && m[i].k == 0 {
			z := mk(OZext, r.w+m[i].w, 0, "", r)
			z.umin, z.umax = r.umin, r.umax
			r = z
			continue
		}
		h := one(m[i])
		c := mk(OConcat, r.w+h.w, 0, "", h, r)
		c.umin = h.umin<<r.w | r.umin
		c.umax = h.umax<<r.w | r.umax
		r = c
	}
	return r
}

func rawExtract(t *Term, lo, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return bv(w, t.k>>lo)
	case OSext:
		if lo+w <= t.a[0].w {
			return rawExtract(t.a[0], lo, w)
		}
	case OIte:
		if t.a[1].isConst() && t.a[2].isConst() {
			return mkIte(t.a[0], bv(w, t.a[1].k>>lo), bv(w, t.a[2].k>>lo))
		}
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
		if lo == 0 && t.op != OMul {
			// low bits of modular arithmetic depend on low bits only
			a, b := mkExtract(t.a[0], 0, w), mkExtract(t.a[1], 0, w)
			switch t.op {
			case OAdd:
				return mkAdd(a, b)
			case OSub:
				return mkSub(a, b)
			}
		}
	}
	if t.umax <= mask(w) && lo == 0 && t.op == OExtract {
		// fallthrough
	}
	e := mk(OExtract, w, uint64(lo), "", t)
	if lo == 0 && t.umax <= mask(w) {
		e.umin, e.umax = t.umin, t.umax
	} else if lo+w == t.w || (t.umax>>lo) <= mask(w) {
		e.umin, e.umax = t.umin>>lo, t.umax>>lo
	}
	return e
}

func mkExtract(t *Term, lo, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	if t.op == OConcat || t.op == OZext || t.op == OExtract || t.op == OConst {
		return rebuild(cut(pieces(t), lo, w))
	}
	return rawExtract(t, lo, w)
}

func mkZext(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return bv(w, t.k)
	}
	return rebuild(append([]piece{{nil, 0, w - t.w, 0}}, pieces(t)...))
}

func mkSext(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return bv(w, uint64(sgn(t.w, t.k)))
	}
	if t.nonneg() {
		return mkZext(t, w)
	}
	if t.op == OSext {
		t = t.a[0]
	}
	return mk(OSext, w, 0, "", t)
}

// combine aligns two piece lists; f returns ok=false when a segment cannot be decided.
func combine(a, b *Term, f func(x, y piece) (piece, bool)) *Term {
	pa, pb := pieces(a), pieces(b)
	if len(pa) > 20 || len(pb) > 20 {
		return nil
	}
	var out []piece
	i, j := 0, 0
	for i < len(pa) && j < len(pb) {
		w := min(pa[i].w, pb[j].w)
		take := func(p *piece) piece {
			q := *p
			q.w = w
			rest := p.w - w
			if p.t == nil {
				q.k = p.k >> rest
				p.k &= mask(rest)
			} else {
				q.lo = p.lo + rest
			}
			p.w = rest
			return q
		}
		x, y := take(&pa[i]), take(&pb[j])
		r, ok := f(x, y)
		if !ok {
			return nil
		}
		out = append(out, r)
		if pa[i].w == 0 {
			i++
		}
		if pb[j].w == 0 {
			j++
		}
	}
	return rebuild(out)
}

func mkBOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return bv(a.w, a.k|b.k)
	}
	if same(a, b) {
		return a
	}
	r := combine(a, b, func(x, y piece) (piece, bool) {
		if x.t == nil && y.t == nil {
			return piece{nil, 0, x.w, x.k | y.k}, true
		}
		if x.t == nil {
			x, y = y, x
		}
		if y.t == nil {
			if y.k == 0 {
				return x, true
			}
			if y.k == mask(y.w) {
				return y, true
			}
		}
		return x, false
	})
	if r != nil {
		return r
	}
	return mk(OBOr, a.w, 0, "", a, b)
}

func splitMask(m *Term) *Term { // constant split into runs is done by cutting in combine via pieces; build runs
	return m
}

func maskPieces(w uint8, k uint64) []piece {
	var out []piece
	for pos := int(w) - 1; pos >= 0; {
		bit := (k >> uint(pos)) & 1
		n := uint8(0)
		for pos >= 0 && (k>>uint(pos))&1 == bit {
			n++
			pos--
		}
		kk := uint64(0)
		if bit == 1 {
			kk = mask(n)
		}
		out = append(out, piece{nil, 0, n, kk})
	}
	return out
}

func mkBAnd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return bv(a.w, a.k&b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if same(a, b) {
		return a
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		if b.k == mask(b.w) {
			return a
		}
		if mp := maskPieces(b.w, b.k); len(mp) <= 8 {
			var out []piece
			pa := pieces(a)
			top := a.w
			for _, m := range mp {
				lo := top - m.w
				if m.k == 0 {
					out = append(out, piece{nil, 0, m.w, 0})
				} else {
					out = append(out, cut(pa, lo, m.w)...)
				}
				top = lo
			}
			return rebuild(out)
		}
	}
	t := mk(OBAnd, a.w, 0, "", a, b)
	t.umax = min(a.umax, b.umax)
	return t
}

func mkBXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return bv(a.w, a.k^b.k)
	}
	if same(a, b) {
		return bv(a.w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	return mk(OBXor, a.w, 0, "", a, b)
}

func mkShl(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return bv(a.w, 0)
		}
		s := uint8(b.k)
		return rebuild(append(cut(pieces(a), 0, a.w-s), piece{nil, 0, s, 0}))
	}
	return mk(OShl, a.w, 0, "", a, b)
}

func mkLshr(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return bv(a.w, 0)
		}
		s := uint8(b.k)
		return rebuild(append([]piece{{nil, 0, s, 0}}, cut(pieces(a), s, a.w-s)...))
	}
	return mk(OLshr, a.w, 0, "", a, b)
}

func mkAshr(a, b *Term) *Term {
	if a.nonneg() {
		return mkLshr(a, b)
	}
	if a.isConst() && b.isConst() {
		s := min(b.k, 63)
		return bv(a.w, uint64(sgn(a.w, a.k)>>s))
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k < uint64(a.w) {
			s := uint8(b.k)
			return mkSext(mkExtract(a, s, a.w-s), a.w)
		}
	}
	return mk(OAshr, a.w, 0, "", a, b)
}

func f64of(w uint8, k uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}
func bitsOf(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func mkF(op Op, w uint8, a ...*Term) *Term {
	all := true
	for _, x := range a {
		if !x.isConst() {
			all = false
		}
	}
	t := mk(op, w, 0, "", a...)
	if all {
		return bv(w, evalF(op, w, a[0].w, a[0].k, func() uint64 {
			if len(a) > 1 {
				return a[1].k
			}
			return 0
		}()))
	}
	return t
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalF(op Op, w, aw uint8, x, y uint64) uint64 {
	switch op {
	case OF32to64:
		return math.Float64bits(float64(math.Float32frombits(uint32(x))))
	case OF64to32:
		return uint64(math.Float32bits(float32(math.Float64frombits(x))))
	case OFLt:
		return b2u(f64of(aw, x) < f64of(aw, y))
	case OFLe:
		return b2u(f64of(aw, x) <= f64of(aw, y))
	case OFEq:
		return b2u(f64of(aw, x) == f64of(aw, y))
	case OFAdd:
		return bitsOf(w, f64of(aw, x)+f64of(aw, y))
	case OFSub:
		return bitsOf(w, f64of(aw, x)-f64of(aw, y))
	case OFMul:
		return bitsOf(w, f64of(aw, x)*f64of(aw, y))
	case OFDiv:
		return bitsOf(w, f64of(aw, x)/f64of(aw, y))
	case OFromS:
		return bitsOf(w, float64(sgn(aw, x)))
	case OFromU:
		return bitsOf(w, float64(x))
	case OToS:
		return uint64(int64(f64of(aw, x))) & mask(w)
	}
	panic("evalF")
}

// ---- models and evaluation ----

type Model struct {
	vars map[string]uint64
	arrs map[string]map[uint64]uint64
}

func newModel() *Model {
	return &Model{map[string]uint64{}, map[string]map[uint64]uint64{}}
}

func (m *Model) clone() *Model {
	n := newModel()
	for k, v := range m.vars {
		n.vars[k] = v
	}
	for k, v := range m.arrs {
		c := make(map[uint64]uint64, len(v))
		for i, x := range v {
			c[i] = x
		}
		n.arrs[k] = c
	}
	return n
}

type evalCtx struct {
	m    *Model
	memo map[*Term]uint64
}

func (m *Model) eval(t *Term) uint64 {
	e := evalCtx{m: m}
	return e.eval(t)
}

func (e *evalCtx) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		v, ok := e.m.vars[t.name]
		if !ok {
			return t.umin
		}
		return v
	}
	if e.memo == nil {
		e.memo = map[*Term]uint64{}
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t] = v
	return v
}

func (e *evalCtx) eval1(t *Term) uint64 {
	switch t.op {
	case OSel:
		i := e.eval(t.a[0])
		return e.m.arrs[t.name][i]
	case OAnd:
		if e.eval(t.a[0]) == 0 {
			return 0
		}
		return e.eval(t.a[1])
	case OOr:
		if e.eval(t.a[0]) == 1 {
			return 1
		}
		return e.eval(t.a[1])
	case OIte:
		if e.eval(t.a[0]) == 1 {
			return e.eval(t.a[1])
		}
		return e.eval(t.a[2])
	}
	x := e.eval(t.a[0])
	var y uint64
	if t.a[1] != nil {
		y = e.eval(t.a[1])
	}
	w := t.w
	aw := t.a[0].w
	m := mask(w)
	switch t.op {
	case ONot:
		return x ^ 1
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sgn(aw, x) < sgn(aw, y))
	case OSle:
		return b2u(sgn(aw, x) <= sgn(aw, y))
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sgn(aw, x), sgn(aw, y)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sgn(aw, x), sgn(aw, y)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		return uint64(sgn(w, x)>>min(y, 63)) & m
	case OZext:
		return x
	case OSext:
		return uint64(sgn(aw, x)) & m
	case OExtract:
		return (x >> t.k) & m
	case OConcat:
		return (x<<t.a[1].w | y) & m
	}
	return evalF(t.op, w, aw, x, y)
}
