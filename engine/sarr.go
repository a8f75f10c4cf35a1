package main

import "sort"

// Scalar arrays with symbolic contents, offsets and lengths.  An array is a
// persistent chain of layers; reading index i walks the chain and yields a term.

type layerKind uint8

const (
	lZero  layerKind = iota // all zero
	lStr                    // constant bytes, zero beyond
	lVar                    // symbolic base array `name`
	lDense                  // concrete-index writes
	lWrite                  // one symbolic-index write
	lCopy                   // bulk copy from another snapshot
	lShift                  // view of other snapshot at offset (substring base)
)

// snap is an immutable layer node.
type snap struct {
	kind  layerKind
	w     uint8
	s     string
	name  string
	dense map[uint64]Value // lDense (frozen)
	idx   Value            // lWrite: index; lCopy: destination offset; lShift: offset
	val   Value            // lWrite
	n     Value            // lCopy: length
	src   *snap            // lCopy, lShift
	soff  Value            // lCopy: source offset
	next  *snap            // older
	depth int
}

type SArr struct {
	w    uint8
	base *snap
	cur  map[uint64]Value // current mutable dense layer on top of base
}

var zeroSnaps [65]*snap

func init() {
	for i := range zeroSnaps {
		zeroSnaps[i] = &snap{kind: lZero, w: uint8(i)}
	}
}

func newSArr(w uint8) *SArr { return &SArr{w: w, base: zeroSnaps[w]} }

func snapStr(s string) *snap { return &snap{kind: lStr, w: 8, s: s} }

func (a *SArr) freeze() *snap {
	if len(a.cur) > 0 {
		a.base = &snap{kind: lDense, w: a.w, dense: a.cur, next: a.base}
		a.cur = nil
	}
	return a.base
}

func (a *SArr) clone() *SArr { return &SArr{w: a.w, base: a.freeze()} }
func (a *SArr) become(b *SArr) {
	a.base, a.cur = b.freeze(), nil
	a.w = b.w
}

func (a *SArr) write(idx, v Value) {
	if idx.conc() {
		if a.cur == nil {
			a.cur = map[uint64]Value{}
		}
		a.cur[idx.u] = v
		return
	}
	b := a.freeze()
	a.base = &snap{kind: lWrite, w: a.w, idx: idx, val: v, next: b}
}

func (a *SArr) read(idx Value) Value {
	if idx.conc() {
		if v, ok := a.cur[idx.u]; ok {
			return v
		}
		return a.base.read(idx)
	}
	return a.freeze().read(idx)
}

func vadd(a, b Value) Value {
	if a.conc() && b.conc() {
		return cu(a.u + b.u)
	}
	return fromT(mkAdd(a.term(64), b.term(64)))
}
func vsub(a, b Value) Value {
	if a.conc() && b.conc() {
		return cu(a.u - b.u)
	}
	return fromT(mkSub(a.term(64), b.term(64)))
}
func vult(a, b Value) *Term {
	if a.conc() && b.conc() {
		return boolT(a.u < b.u)
	}
	return mkUlt(a.term(64), b.term(64))
}
func vule(a, b Value) *Term {
	if a.conc() && b.conc() {
		return boolT(a.u <= b.u)
	}
	return mkUle(a.term(64), b.term(64))
}
func veq(a, b Value) *Term {
	if a.conc() && b.conc() {
		return boolT(a.u == b.u)
	}
	return mkEq(a.term(64), b.term(64))
}

// decide hook: lets a path decide conditions implied by its constraints cheaply.
func (s *snap) read(idx Value) Value { return s.readD(idx, nil) }

func (s *snap) readD(idx Value, dec func(*Term) *Term) Value {
	type pend struct {
		c *Term
		v Value
	}
	var ps []pend
	finish := func(v Value) Value {
		for i := len(ps) - 1; i >= 0; i-- {
			v = fromT(mkIte(ps[i].c, ps[i].v.term(s.w), v.term(s.w)))
		}
		return v
	}
	for {
		switch s.kind {
		case lZero:
			return finish(cu(0))
		case lStr:
			if idx.conc() {
				if idx.u < uint64(len(s.s)) {
					return finish(cu(uint64(s.s[idx.u])))
				}
				return finish(cu(0))
			}
			t := idx.term(64)
			lo, hi := t.umin, t.umax
			if hi >= uint64(len(s.s)) {
				hi = uint64(len(s.s)) - 1
			}
			v := cu(0)
			if len(s.s) > 0 && lo <= hi {
				if hi-lo > 70000 {
					unsup("symbolic index into a large constant")
				}
				// runs of equal bytes
				for k := int64(hi); k >= int64(lo); {
					j := k
					for j > int64(lo) && s.s[j-1] == s.s[k] {
						j--
					}
					v = fromT(mkIte(within(t, uint64(j), uint64(k)), bv(8, uint64(s.s[k])), v.term(8)))
					k = j - 1
				}
			}
			return finish(v)
		case lVar:
			return finish(fromT(mkSel(s.name, s.w, idx.term(64))))
		case lDense:
			if idx.conc() {
				if v, ok := s.dense[idx.u]; ok {
					return finish(v)
				}
				s = s.next
				continue
			}
			t := idx.term(64)
			if len(s.dense) > 5000 {
				unsup("symbolic index over a large dense array")
			}
			// in order: terms have to be the same on every execution
			keys := make([]uint64, 0, len(s.dense))
			for k := range s.dense {
				if k >= t.umin && k <= t.umax {
					keys = append(keys, k)
				}
			}
			sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
			for i := 0; i < len(keys); {
				v := s.dense[keys[i]]
				j := i + 1
				for j < len(keys) && keys[j] == keys[j-1]+1 && v.conc() && s.dense[keys[j]].conc() && s.dense[keys[j]].u == v.u {
					j++
				}
				ps = append(ps, pend{within(t, keys[i], keys[j-1]), v})
				i = j
			}
			s = s.next
		case lWrite:
			c := veq(idx, s.idx)
			if dec != nil {
				c = dec(c)
			}
			if c.isTrue() {
				return finish(s.val)
			}
			if !c.isFalse() {
				ps = append(ps, pend{c, s.val})
			}
			s = s.next
		case lCopy:
			// idx in [s.idx, s.idx+n)
			rel := vsub(idx, s.idx)
			c := vult(rel, s.n)
			if s.idx.conc() && s.idx.u == 0 {
				c = vult(idx, s.n)
			} else if !c.isConst() {
				// offsets never wrap: split to give intervals a chance
				ge := vule(s.idx, idx)
				if ge.isFalse() {
					c = tFalse
				} else {
					lt := vult(idx, vadd(s.idx, s.n))
					if lt.isFalse() {
						c = tFalse
					} else {
						c = mkAnd(ge, lt)
					}
				}
			}
			if dec != nil {
				c = dec(c)
			}
			if c.isTrue() {
				idx = vadd(rel, s.soff)
				s = s.src
				continue
			}
			if !c.isFalse() {
				ps = append(ps, pend{c, s.src.readD(vadd(rel, s.soff), dec)})
			}
			s = s.next
		case lShift:
			idx = vadd(idx, s.idx)
			s = s.src
		}
	}
}

// bulk copies n elements from snapshot src at soff into a at off.
func (a *SArr) bulk(off Value, src *snap, soff, n Value) {
	if n.conc() && n.u == 0 {
		return
	}
	if off.conc() && soff.conc() && n.conc() && n.u <= 64 {
		vals := make([]Value, n.u)
		for i := range vals {
			vals[i] = src.read(cu(soff.u + uint64(i)))
		}
		for i, v := range vals {
			a.write(cu(off.u+uint64(i)), v)
		}
		return
	}
	// collapse copy-of-copy: the source layer covers the range completely
	for src.kind == lCopy && off.conc() && soff.conc() && src.idx.conc() && src.n.conc() && n.conc() &&
		soff.u >= src.idx.u && soff.u+n.u <= src.idx.u+src.n.u && src.soff.conc() {
		soff = cu(soff.u - src.idx.u + src.soff.u)
		src = src.src
	}
	b := a.freeze()
	a.base = &snap{kind: lCopy, w: a.w, idx: off, n: n, src: src, soff: soff, next: b}
}

// within is lo <= t <= hi.
func within(t *Term, lo, hi uint64) *Term {
	if lo == hi {
		return mkEq(t, bv(64, lo))
	}
	return mkAnd(mkUle(bv(64, lo), t), mkUle(t, bv(64, hi)))
}

func vmul(a, b Value) Value {
	if a.conc() && b.conc() {
		return cu(a.u * b.u)
	}
	return Value{x: mkMul(a.term(64), b.term(64))}
}
