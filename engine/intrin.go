package main

import (
	"fmt"
	"go/types"
	"math"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(p *Path, fr *frame, a []Value) Value

func debugStack() string { return string(debug.Stack()) }

var intrinsics map[string]intrinsic
var globalOverride = map[string]func(p *Path) Value{
	"os.Stderr": func(p *Path) Value { return nilPtr },
	"os.Stdout": func(p *Path) Value { return nilPtr },
	"os.Stdin":  func(p *Path) Value { return nilPtr },
}

const vpkg = "verifh/v"

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	if in, ok := intrinsics[fn.String()]; ok {
		return in
	}
	if o := fn.Origin(); o != nil && o != fn {
		if in, ok := intrinsics[o.String()]; ok {
			return in
		}
		if o.String() == "unique.Make" {
			t := fn.TypeArgs()[0]
			return func(p *Path, fr *frame, a []Value) Value { return p.unique(t, a[0]) }
		}
	}
	if fn.Pkg != nil && noopPkgs[fn.Pkg.Pkg.Path()] {
		return func(p *Path, fr *frame, a []Value) Value { return zeroResults(fn) }
	}
	return nil
}

// packages whose functions are modelled as doing nothing
var noopPkgs = map[string]bool{
	"internal/race": true, "internal/msan": true, "internal/asan": true,
	"internal/godebug": true,
}

type uniqV struct {
	t  types.Type
	v  Value
	pt *Ptr
}

// unique gives the handle of a value: equal values have the same one.
func (p *Path) unique(t types.Type, v Value) Value {
	for _, u := range p.uniq {
		if types.Identical(u.t, t) && p.decide(p.eqVal(t, u.v, v)) {
			return Value{x: &StructV{f: []Value{{x: u.pt}}}}
		}
	}
	u := uniqV{t, copyVal(v), &Ptr{c: &Box{v: copyVal(v)}}}
	p.uniq = append(p.uniq, u)
	return Value{x: &StructV{f: []Value{{x: u.pt}}}}
}

func tuple(vs ...Value) Value { return Value{x: TupleV(vs)} }

// callMethod invokes a method by name on an interface value (nil if absent).
func (p *Path) callMethod(i *IfaceV, name string, args ...Value) (Value, bool) {
	fn := p.eng.methodByName(i.t, name)
	if fn == nil {
		return Value{}, false
	}
	return p.callFn(p.curFrame(), p.eng.cfunc(fn), append([]Value{i.v}, args...), nil), true
}

func (p *Path) callV(name string, args ...Value) Value {
	f := p.eng.stdFunc(vpkg, name)
	return p.callFn(p.curFrame(), f, args, nil)
}

// format is a model of fmt: texts, numbers, errors and Stringers are as they
// are, other arguments are only told apart.
func (p *Path) format(f *StrV, args []Value) *StrV {
	out := &StrV{conc: true}
	var sb strings.Builder
	flush := func() {
		out = p.strConcat(out, &StrV{conc: true, s: sb.String()}).str()
		sb.Reset()
	}
	put := func(s *StrV) {
		if s.conc {
			sb.WriteString(s.s)
			return
		}
		flush()
		out = p.strConcat(out, s).str()
	}
	at := func(i int) byte { return f.s[i] }
	size := len(f.s)
	if !f.conc {
		size = int(p.conc(f.length(), 64))
		if size > 1000 {
			unsup("long symbolic format")
		}
		at = func(i int) byte { return byte(p.concretise(p.strAt(f, ci(i)).term(8), 8)) }
	}
	n := 0
	for i := 0; i < size; i++ {
		if !f.conc {
			c := p.strAt(f, ci(i))
			if !p.decide(mkEq(c.term(8), bv(8, '%'))) {
				put(p.substr(f, ci(i), ci(i+1)).str())
				continue
			}
		} else if f.s[i] != '%' {
			sb.WriteByte(f.s[i])
			continue
		}
		j := i + 1
		for j < size && strings.IndexByte("+-# 0123456789.", at(j)) >= 0 {
			j++
		}
		if j >= size {
			sb.WriteString("%!(NOVERB)")
			break
		}
		verb := at(j)
		if verb == '%' {
			sb.WriteByte('%')
			i = j
			continue
		}
		if n < len(args) {
			if j > i+1 {
				// with flags
				var flags []byte
				for k := i + 1; k < j; k++ {
					flags = append(flags, at(k))
				}
				put(p.fmtFlags(string(flags), verb, args[n]))
			} else {
				put(p.fmtText(verb, args[n]))
			}
			n++
		} else {
			sb.WriteString("%!" + string(verb) + "(MISSING)")
		}
		i = j
	}
	if n < len(args) {
		sb.WriteString("%!(EXTRA ")
		for k, x := range args[n:] {
			if k > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(p.fmtArg('T', x) + "=")
			put(p.fmtText('v', x))
		}
		sb.WriteString(")")
	}
	flush()
	return out
}

// fmtFlags is the text of one argument with flags, a width or a precision.
func (p *Path) fmtFlags(flags string, verb byte, v Value) *StrV {
	i, ok := v.x.(*IfaceV)
	if ok && i != nil && verb != 'T' && i.v.conc() && !strings.Contains(flags, "#") {
		if w, ok := scalarW(i.t); ok && w > 0 && !isFloat(i.t) && p.eng.methodByName(i.t, "Error") == nil && p.eng.methodByName(i.t, "String") == nil {
			if b := i.t.Underlying().(*types.Basic); b.Info()&types.IsUnsigned != 0 {
				return &StrV{conc: true, s: fmt.Sprintf("%"+flags+string(verb), i.v.u)}
			}
			return &StrV{conc: true, s: fmt.Sprintf("%"+flags+string(verb), int64(i.v.u<<(64-w))>>(64-w))}
		}
	}
	if verb != 's' && verb != 'v' || strings.ContainsAny(flags, "#+") && verb == 'v' {
		return &StrV{conc: true, s: p.fmtArg(verb, v)}
	}
	t := p.fmtText(verb, v)
	if t.conc {
		return &StrV{conc: true, s: fmt.Sprintf("%"+flags+"s", t.s)}
	}
	// of single byte characters
	width, prec, hasPrec := strings.TrimLeft(flags, "+-# 0"), "", false
	if k := strings.IndexByte(width, '.'); k >= 0 {
		width, prec, hasPrec = width[:k], width[k+1:], true
	}
	n := int(p.conc(t.length(), 64))
	if m, _ := strconv.Atoi(prec); hasPrec && n > m {
		n = m
		t = p.substr(t, ci(0), ci(n)).str()
	}
	for k := 0; k < n; k++ {
		if !p.decide(mkUlt(p.strAt(t, ci(k)).term(8), bv(8, 0x80))) {
			unsup("formatting multibyte text with a width or precision")
		}
	}
	if m, _ := strconv.Atoi(width); n < m {
		pad := &StrV{conc: true, s: strings.Repeat(" ", m-n)}
		if strings.Contains(flags, "-") {
			return p.strConcat(t, pad).str()
		}
		return p.strConcat(pad, t).str()
	}
	return t
}

// sprint is Sprintln or Sprint.
func (p *Path) sprint(args []Value, ln bool) *StrV {
	out := &StrV{conc: true}
	add := func(s *StrV) { out = p.strConcat(out, s).str() }
	isStr := func(v Value) bool {
		i, ok := v.x.(*IfaceV)
		return ok && i != nil && types.Identical(i.t.Underlying(), types.Typ[types.String])
	}
	for k, x := range args {
		if k > 0 && (ln || !isStr(x) && !isStr(args[k-1])) {
			add(&StrV{conc: true, s: " "})
		}
		add(p.fmtText('v', x))
	}
	if ln {
		add(&StrV{conc: true, s: "\n"})
	}
	return out
}

// fmtText is the text of one argument of fmt.
func (p *Path) fmtText(verb byte, v Value) *StrV {
	i, ok := v.x.(*IfaceV)
	if ok && i != nil && (verb == 's' || verb == 'v') {
		pt, isPtr := i.v.x.(*Ptr)
		for _, m := range []string{"Error", "String"} {
			if fn := p.eng.methodByName(i.t, m); fn != nil && !(isPtr && pt == nil) && fn.Signature.Params().Len() == 0 {
				if r, ok := p.callMethod(i, m); ok {
					if s, ok := r.x.(*StrV); ok {
						return s
					}
				}
			}
		}
		if b, ok := i.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return i.v.str()
		}
		if s, ok := i.t.Underlying().(*types.Slice); ok && verb == 's' {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return p.readBytes(i.v)
			}
		}
	}
	return &StrV{conc: true, s: p.fmtArg(verb, v)}
}

func (p *Path) fmtArg(verb byte, v Value) string {
	i, ok := v.x.(*IfaceV)
	if !ok || i == nil {
		return "<nil>"
	}
	if verb == 'T' {
		return types.TypeString(i.t, func(pk *types.Package) string { return pk.Name() })
	}
	if i.v.conc() {
		if w, ok := scalarW(i.t); ok && w > 0 && !isFloat(i.t) {
			switch verb {
			case 'x':
				return strconv.FormatUint(i.v.u, 16)
			case 'c':
				return string(rune(i.v.u))
			}
		}
	}
	return p.eng.show(i.t, i.v)
}

func sliceVals(p *Path, v Value) []Value {
	s := v.sl()
	if s.arr == nil {
		return nil
	}
	n := int(p.conc(s.len, 64))
	off := int(p.conc(s.off, 64))
	var out []Value
	for i := 0; i < n; i++ {
		out = append(out, *s.arr.(*GArr).at(off + i))
	}
	return out
}

// time.Time model: wall = 0, ext = nanoseconds on a linear clock.
func (p *Path) mkTime(ns Value) Value {
	return Value{x: &StructV{f: []Value{cu(0), ns, nilPtr}}}
}
func timeNS(v Value) Value { return v.x.(*StructV).f[1] }

const clockBase = uint64(1) << 55

func bytesOf(v Value) *StrV { // view of a []byte as a sequence
	s := v.sl()
	if s.arr == nil {
		return &StrV{conc: true}
	}
	if !s.off.conc() || !s.len.conc() {
		return &StrV{sn: s.arr.(*SArr).freeze(), off: s.off, n: s.len}
	}
	return &StrV{sn: s.arr.(*SArr).freeze(), off: s.off, n: s.len}
}

// readBytes is bytesOf for an access that counts.
func (p *Path) readBytes(v Value) *StrV {
	if s := v.sl(); s.arr != nil {
		p.raceRange(s.arr.(*SArr), s.off, s.len, false, false)
	}
	return bytesOf(v)
}

func (p *Path) indexByte(s *StrV, c Value) Value {
	if s.conc && c.conc() {
		return ci(strings.IndexByte(s.s, byte(c.u)))
	}
	n := s.length()
	for i := uint64(0); ; i++ {
		if !p.decide(vult(cu(i), n)) {
			return ci(-1)
		}
		if p.decide(mkEq(p.strAt(s, cu(i)).term(8), c.term(8))) {
			return cu(i)
		}
	}
}

func (p *Path) lastIndexByte(s *StrV, c Value) Value {
	if s.conc && c.conc() {
		return ci(strings.LastIndexByte(s.s, byte(c.u)))
	}
	n := p.conc(s.length(), 64)
	for i := int(n) - 1; i >= 0; i-- {
		if p.decide(mkEq(p.strAt(s, ci(i)).term(8), c.term(8))) {
			return ci(i)
		}
	}
	return ci(-1)
}

func (p *Path) countByte(s *StrV, c Value) Value {
	if s.conc && c.conc() {
		return ci(strings.Count(s.s, string([]byte{byte(c.u)})))
	}
	n := s.length()
	cnt := 0
	for i := uint64(0); ; i++ {
		if !p.decide(vult(cu(i), n)) {
			return ci(cnt)
		}
		if p.decide(mkEq(p.strAt(s, cu(i)).term(8), c.term(8))) {
			cnt++
		}
	}
}

func (p *Path) indexStr(s, sub *StrV) Value {
	if s.conc && sub.conc {
		return ci(strings.Index(s.s, sub.s))
	}
	n := p.conc(s.length(), 64)
	m := p.conc(sub.length(), 64)
	for i := uint64(0); i+m <= n; i++ {
		a := p.substr(s, cu(i), cu(i+m)).str()
		if p.decide(p.strEq(a, sub)) {
			return cu(i)
		}
	}
	return ci(-1)
}

// record an input
func (p *Path) scalarIn(kind string, w uint8, lo, hi uint64) Value {
	nm := p.fresh("x")
	t := mkVar(nm, w, lo, hi)
	p.inputs = append(p.inputs, Input{Kind: "u", Name: kind, t: t, w: w})
	return Value{x: t}
}

func (p *Path) bytesIn(n Value, maxN uint64) *snap {
	nm := p.fresh("b")
	var sn *snap
	if maxN <= 512 {
		d := make(map[uint64]Value, maxN)
		for i := uint64(0); i < maxN; i++ {
			d[i] = Value{x: mkVar(fmt.Sprintf("%s_%d", nm, i), 8, 0, 255)}
		}
		sn = &snap{kind: lDense, w: 8, dense: d, next: zeroSnaps[8]}
	} else {
		sn = &snap{kind: lVar, w: 8, name: nm}
	}
	p.inputs = append(p.inputs, Input{Kind: "b", n: n, sn: sn})
	return sn
}

func (p *Path) intIn(lo, hi int64) Value {
	if lo == hi {
		p.inputs = append(p.inputs, Input{Kind: "u", Name: "int", t: bv(64, uint64(lo)), w: 64})
		return cu(uint64(lo))
	}
	if lo >= 0 {
		return p.scalarIn("int", 64, uint64(lo), uint64(hi))
	}
	v := p.scalarIn("int", 64, 0, math.MaxUint64)
	if lo != math.MinInt64 || hi != math.MaxInt64 {
		p.assume(mkAnd(mkSle(bv(64, uint64(lo)), v.term(64)), mkSle(v.term(64), bv(64, uint64(hi)))))
	}
	return v
}

// opaque native objects for reflect
type rtypeObj struct{ t types.Type }

func (r *rtypeObj) eq(o any) bool {
	x, ok := o.(*rtypeObj)
	return ok && types.Identical(r.t, x.t)
}

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (r *rtypeObj) invoke(p *Path, name string, a []Value) Value {
	switch name {
	case "Kind":
		return cu(kindOf(r.t))
	case "String":
		return str(types.TypeString(r.t, func(pk *types.Package) string { return pk.Name() }))
	case "Name":
		if n, ok := types.Unalias(r.t).(*types.Named); ok {
			return str(n.Obj().Name())
		}
		if b, ok := r.t.(*types.Basic); ok {
			return str(b.Name())
		}
		return emptyStr
	case "Elem":
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			return p.rtype(u.Elem())
		case *types.Array:
			return p.rtype(u.Elem())
		case *types.Pointer:
			return p.rtype(u.Elem())
		case *types.Map:
			return p.rtype(u.Elem())
		}
	case "Key":
		if u, ok := r.t.Underlying().(*types.Map); ok {
			return p.rtype(u.Key())
		}
	case "Comparable":
		return cb(types.Comparable(r.t))
	case "NumField":
		if u, ok := r.t.Underlying().(*types.Struct); ok {
			return ci(u.NumFields())
		}
	case "Len":
		if u, ok := r.t.Underlying().(*types.Array); ok {
			return ci(int(u.Len()))
		}
	}
	unsup("reflect.Type." + name)
	return Value{}
}

func (p *Path) rtype(t types.Type) Value {
	return Value{x: &IfaceV{t: p.eng.rtypePtr, v: Value{x: &rtypeObj{t}}}}
}

type rvalObj struct {
	t types.Type
	v Value
}

func (p *Path) rval(t types.Type, v Value) Value {
	return Value{x: &StructV{f: []Value{{x: &rvalObj{t, v}}, nilPtr, cu(0)}}}
}

func rvalOf(v Value) *rvalObj {
	r, ok := v.x.(*StructV).f[0].x.(*rvalObj)
	if !ok {
		return nil
	}
	return r
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	noop := func(p *Path, fr *frame, a []Value) Value { return Value{} }
	V := func(n string, f intrinsic) { I[vpkg+"."+n] = f }

	// ---- harness API ----
	V("Symbolic", func(p *Path, fr *frame, a []Value) Value { return cu(1) })
	V("Tier", func(p *Path, fr *frame, a []Value) Value { return ci(p.eng.tier) })
	V("Bool", func(p *Path, fr *frame, a []Value) Value {
		t := p.scalarIn("bool", 8, 0, 1)
		return fromT(mkEq(t.term(8), bv(8, 1)))
	})
	V("Int", func(p *Path, fr *frame, a []Value) Value {
		lo, hi := int64(p.conc(a[0], 64)), int64(p.conc(a[1], 64))
		return p.intIn(lo, hi)
	})
	for n, w := range map[string]uint8{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "I8": 8, "I16": 16, "I32": 32, "I64": 64} {
		w := w
		V(n, func(p *Path, fr *frame, a []Value) Value { return p.scalarIn("s", w, 0, mask(w)) })
	}
	V("Bytes", func(p *Path, fr *frame, a []Value) Value {
		mx := a[0].u
		if !a[0].conc() {
			mx = a[0].term(64).umax
		}
		sn := p.bytesIn(a[0], mx)
		return Value{x: &SliceV{arr: &SArr{w: 8, base: sn}, off: cu(0), len: a[0], cap: a[0]}}
	})
	V("Str", func(p *Path, fr *frame, a []Value) Value {
		mx := a[0].u
		if !a[0].conc() {
			mx = a[0].term(64).umax
		}
		if mx == 0 {
			p.bytesIn(cu(0), 0)
			return emptyStr
		}
		sn := p.bytesIn(a[0], mx)
		return Value{x: &StrV{sn: sn, off: cu(0), n: a[0]}}
	})
	V("Choose", func(p *Path, fr *frame, a []Value) Value {
		n := int64(p.conc(a[0], 64))
		v := p.intIn(0, n-1)
		return cu(p.conc(v, 64))
	})
	V("Concrete", func(p *Path, fr *frame, a []Value) Value { return cu(p.conc(a[0], 64)) })
	V("Assume", func(p *Path, fr *frame, a []Value) Value { p.assume(a[0].term(0)); return Value{} })
	V("Assert", func(p *Path, fr *frame, a []Value) Value {
		p.stack = p.stackTrace()
		p.assertT(a[0].term(0), a[1].str().s)
		return Value{}
	})
	eqSeq := func(p *Path, x, y *StrV, msg string) {
		p.stack = p.stackTrace()
		p.assertT(veq(x.length(), y.length()), msg+" (length)")
		if x.conc && y.conc {
			p.assertT(boolT(x.s == y.s), msg)
			return
		}
		n := x.length()
		sx, ox := x.snapOff()
		sy, oy := y.snapOff()
		if sx == sy && veq(ox, oy).isTrue() {
			p.asserts++
			return
		}
		if n.conc() && n.u <= 1<<18 {
			r, cnt := tTrue, 0
			p.asserts++
			for i := uint64(0); i < n.u; i++ {
				e := mkEq(p.strAt(x, cu(i)).term(8), p.strAt(y, cu(i)).term(8))
				if e.isTrue() {
					continue
				}
				r = mkAnd(e, r)
				if cnt++; cnt == 64 {
					p.assertT(r, msg)
					r, cnt = tTrue, 0
				}
			}
			p.assertT(r, msg)
			return
		}
		// for every index k < n: a fresh k makes the assertion universal
		if n.conc() && n.u == 0 {
			return
		}
		mx := n.u
		if !n.conc() {
			mx = n.term(64).umax
		}
		if mx == 0 {
			return
		}
		k := Value{x: mkVar(p.fresh("k"), 64, 0, mx-1)}
		in := vult(k, n)
		p.assertT(mkOr(mkNot(in), mkEq(p.strAt(x, k).term(8), p.strAt(y, k).term(8))), msg)
	}
	V("AssertEqBytes", func(p *Path, fr *frame, a []Value) Value {
		eqSeq(p, bytesOf(a[0]), bytesOf(a[1]), a[2].str().s)
		return Value{}
	})
	V("AssertEqStr", func(p *Path, fr *frame, a []Value) Value {
		eqSeq(p, a[0].str(), a[1].str(), a[2].str().s)
		return Value{}
	})
	V("Fail", func(p *Path, fr *frame, a []Value) Value {
		p.stack = p.stackTrace()
		p.assertT(tFalse, a[0].str().s)
		return Value{}
	})
	V("Reach", func(p *Path, fr *frame, a []Value) Value { p.reach[a[0].str().s] = true; return Value{} })
	V("ObsI", func(p *Path, fr *frame, a []Value) Value {
		p.obsv = append(p.obsv, obs{label: a[0].str().s, kind: "i", v: a[1], w: 64})
		return Value{}
	})
	V("ObsB", func(p *Path, fr *frame, a []Value) Value {
		p.obsv = append(p.obsv, obs{label: a[0].str().s, kind: "b", v: a[1], w: 0})
		return Value{}
	})
	V("ObsS", func(p *Path, fr *frame, a []Value) Value {
		s := a[1].str()
		o := obs{label: a[0].str().s, kind: "s"}
		if s.conc {
			o.s = s.s
		} else {
			o.sn, o.off, o.n = s.sn, s.off, s.n
		}
		p.obsv = append(p.obsv, o)
		return Value{}
	})
	V("AllocLimit", func(p *Path, fr *frame, a []Value) Value { p.allocLim = a[0].u; return Value{} })
	V("AllocTotal", func(p *Path, fr *frame, a []Value) Value { p.allocTot, p.allocSum = a[0].u, cu(0); return Value{} })
	V("StackLimit", func(p *Path, fr *frame, a []Value) Value { p.depthLim = p.sch.cur.depth + int(a[0].u); return Value{} })
	V("InitAll", func(p *Path, fr *frame, a []Value) Value {
		pkgs := p.eng.prog.AllPackages()
		sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
		p.noRace++
		for _, pkg := range pkgs {
			if f := pkg.Func("init"); f != nil && isRepo(pkg.Pkg.Path()) && p.pkgState[pkg] == 0 {
				p.pkgState[pkg] = 1
				p.callFn(nil, p.eng.cfunc(f), nil, nil)
			}
		}
		p.noRace--
		return Value{}
	})
	V("MapOrder", func(p *Path, fr *frame, a []Value) Value { p.mapOrder = a[0].u == 1; return Value{} })
	V("Concurrent", func(p *Path, fr *frame, a []Value) Value {
		p.preempt = int(a[0].u)
		if p.race == nil {
			p.race = &raceState{sh: map[ptrKey]*shadow{}}
		}
		return Value{}
	})
	V("catch", noop)
	V("Lock", noop)
	V("Unlock", noop)
	V("Touch", func(p *Path, fr *frame, a []Value) Value {
		if s := a[0].sl(); s.arr != nil {
			p.raceRange(s.arr.(*SArr), s.off, s.len, p.decide(a[1].term(0)), true)
		}
		return Value{}
	})
	V("Yield", func(p *Path, fr *frame, a []Value) Value { p.syncPoint(); return Value{} })
	V("LogCount", func(p *Path, fr *frame, a []Value) Value { return ci(p.logCount) })
	V("Ite", func(p *Path, fr *frame, a []Value) Value {
		return fromT(mkIte(a[0].term(0), a[1].term(64), a[2].term(64)))
	})
	V("And", func(p *Path, fr *frame, a []Value) Value { return fromT(mkAnd(a[0].term(0), a[1].term(0))) })
	V("Or", func(p *Path, fr *frame, a []Value) Value { return fromT(mkOr(a[0].term(0), a[1].term(0))) })
	V("ClockAdvance", func(p *Path, fr *frame, a []Value) Value {
		p.clock += a[0].u
		return Value{}
	})

	// ---- environment: network, files ----
	I["net.DialTimeout"] = func(p *Path, fr *frame, a []Value) Value { return p.callV("DialTCP", a...) }
	I["net.Dial"] = func(p *Path, fr *frame, a []Value) Value { return p.callV("DialTCP", a[0], a[1], cu(0)) }
	I["(*net.Dialer).Dial"] = func(p *Path, fr *frame, a []Value) Value {
		d := p.load(a[0].ptr()).x.(*StructV)
		return p.callV("DialTCP", a[1], a[2], d.f[0])
	}
	I["(*net.Dialer).DialContext"] = func(p *Path, fr *frame, a []Value) Value {
		d := p.load(a[0].ptr()).x.(*StructV)
		return p.callV("DialTCP", a[2], a[3], d.f[0])
	}
	I["crypto/tls.Dial"] = func(p *Path, fr *frame, a []Value) Value {
		return tuple(nilPtr, p.callV("DialTLS", a[0], a[1], cu(0), a[2]))
	}
	I["crypto/tls.DialWithDialer"] = func(p *Path, fr *frame, a []Value) Value {
		d := p.load(a[0].ptr()).x.(*StructV)
		return tuple(nilPtr, p.callV("DialTLS", a[1], a[2], d.f[0], a[3]))
	}
	I["crypto/tls.LoadX509KeyPair"] = func(p *Path, fr *frame, a []Value) Value { return p.callV("LoadKeyPair", a...) }
	I["os.ReadFile"] = func(p *Path, fr *frame, a []Value) Value { return p.callV("ReadFile", a...) }
	I["io/ioutil.ReadFile"] = I["os.ReadFile"]
	I["crypto/x509.NewCertPool"] = func(p *Path, fr *frame, a []Value) Value {
		return Value{x: &Ptr{c: &Box{v: zero(p.eng.stdType("crypto/x509", "CertPool"))}}}
	}
	I["(*crypto/x509.CertPool).AppendCertsFromPEM"] = func(p *Path, fr *frame, a []Value) Value {
		return p.callV("AppendPEM", a[1])
	}
	I["os.Getenv"] = func(p *Path, fr *frame, a []Value) Value { return emptyStr }
	I["os.NewFile"] = func(p *Path, fr *frame, a []Value) Value { return nilPtr }

	// ---- logging ----
	// A logger hands one line to its writer per call; prefixes and times are not modelled.
	logWriter := func(p *Path, pt *Ptr) Value {
		f := p.logSlot(pt)
		if f == nil || f.ifc() == nil {
			return nilIface
		}
		if s := f.ifc().t.String(); s == "*os.File" {
			return nilIface
		}
		return *f
	}
	I["log.New"] = func(p *Path, fr *frame, a []Value) Value {
		pt := &Ptr{c: &Box{v: zero(p.eng.stdType("log", "Logger"))}}
		if f := p.logSlot(pt); f != nil {
			*f = a[0]
		}
		return Value{x: pt}
	}
	logTo := func(p *Path, lg Value, text func() *StrV) {
		p.logCount++
		if pt := lg.ptr(); pt != nil {
			if w := logWriter(p, pt); w.ifc() != nil {
				p.callV("LogLine", w, Value{x: text()})
			}
		}
	}
	texts := map[string]func(p *Path, a []Value) *StrV{
		"Printf":  func(p *Path, a []Value) *StrV { return p.format(a[0].str(), sliceVals(p, a[1])) },
		"Println": func(p *Path, a []Value) *StrV { return p.sprint(sliceVals(p, a[0]), true) },
		"Print":   func(p *Path, a []Value) *StrV { return p.sprint(sliceVals(p, a[0]), false) },
	}
	for n, f := range texts {
		I["(*log.Logger)."+n] = func(p *Path, fr *frame, a []Value) Value {
			logTo(p, a[0], func() *StrV { return f(p, a[1:]) })
			return Value{}
		}
		I["log."+n] = func(p *Path, fr *frame, a []Value) Value { p.logCount++; return Value{} }
		m := strings.Replace(n, "P", "", 1)
		I["fmt.Sp"+m] = func(p *Path, fr *frame, a []Value) Value { return Value{x: f(p, a)} }
		I["fmt.Fp"+m] = func(p *Path, fr *frame, a []Value) Value {
			w := a[0].ifc()
			if w == nil || w.t.String() == "*os.File" {
				return tuple(cu(0), nilIface)
			}
			r, ok := p.callMethod(w, "Write", p.strToBytes(f(p, a[1:])))
			if !ok {
				unsup("Fprint to a writer without Write")
			}
			return r
		}
		I["fmt."+n] = func(p *Path, fr *frame, a []Value) Value { return tuple(cu(0), nilIface) }
	}
	I["(*log.Logger).Output"] = func(p *Path, fr *frame, a []Value) Value {
		logTo(p, a[0], func() *StrV { return a[2].str() })
		return nilIface
	}
	I["(*log.Logger).SetOutput"] = func(p *Path, fr *frame, a []Value) Value {
		if f := p.logSlot(a[0].ptr()); f != nil {
			*f = a[1]
		}
		return Value{}
	}

	// ---- fmt ----
	I["fmt.Errorf"] = func(p *Path, fr *frame, a []Value) Value {
		f := p.concStr(a[0])
		args := sliceVals(p, a[1])
		msg := p.format(&StrV{conc: true, s: strings.ReplaceAll(f, "%w", "%v")}, args)
		if k := strings.Index(f, "%w"); k >= 0 {
			idx := strings.Count(strings.ReplaceAll(f[:k], "%%", ""), "%")
			if idx < len(args) {
				if i := args[idx].ifc(); i != nil {
					t := p.eng.stdType("fmt", "wrapError")
					s := zero(t).x.(*StructV)
					s.f[0], s.f[1] = Value{x: msg}, args[idx]
					return Value{x: &IfaceV{t: types.NewPointer(t), v: Value{x: &Ptr{c: &Box{v: Value{x: s}}}}}}
				}
			}
		}
		return p.callFn(fr, p.eng.stdFunc("errors", "New"), []Value{{x: msg}}, nil)
	}
	// ---- runtime ----
	I["runtime/debug.Stack"] = func(p *Path, fr *frame, a []Value) Value {
		return p.strToBytes(&StrV{conc: true, s: "stack"})
	}
	I["runtime.GC"] = noop
	I["runtime.Gosched"] = func(p *Path, fr *frame, a []Value) Value { p.syncPoint(); return Value{} }
	I["runtime.KeepAlive"] = noop
	I["runtime.SetFinalizer"] = noop
	I["runtime.Caller"] = func(p *Path, fr *frame, a []Value) Value { return tuple(cu(0), emptyStr, cu(0), cu(0)) }
	I["runtime.Callers"] = func(p *Path, fr *frame, a []Value) Value { return cu(0) }
	I["runtime.Stack"] = func(p *Path, fr *frame, a []Value) Value { return cu(0) }
	I["(runtime.errorString).Error"] = func(p *Path, fr *frame, a []Value) Value {
		return str("runtime error: " + p.concStr(a[0]))
	}

	// ---- time ----
	I["time.Now"] = func(p *Path, fr *frame, a []Value) Value {
		p.clock += 1000
		return p.mkTime(cu(clockBase + p.clock))
	}
	I["(time.Time).Add"] = func(p *Path, fr *frame, a []Value) Value { return p.mkTime(vadd(timeNS(a[0]), a[1])) }
	I["(time.Time).Sub"] = func(p *Path, fr *frame, a []Value) Value { return vsub(timeNS(a[0]), timeNS(a[1])) }
	I["time.Since"] = func(p *Path, fr *frame, a []Value) Value {
		p.clock += 1000
		return vsub(cu(clockBase+p.clock), timeNS(a[0]))
	}
	I["time.Until"] = func(p *Path, fr *frame, a []Value) Value {
		p.clock += 1000
		return vsub(timeNS(a[0]), cu(clockBase+p.clock))
	}
	I["(time.Time).After"] = func(p *Path, fr *frame, a []Value) Value {
		return fromT(mkSlt(timeNS(a[1]).term(64), timeNS(a[0]).term(64)))
	}
	I["(time.Time).Before"] = func(p *Path, fr *frame, a []Value) Value {
		return fromT(mkSlt(timeNS(a[0]).term(64), timeNS(a[1]).term(64)))
	}
	I["(time.Time).Equal"] = func(p *Path, fr *frame, a []Value) Value {
		return fromT(mkEq(timeNS(a[0]).term(64), timeNS(a[1]).term(64)))
	}
	I["(time.Time).IsZero"] = func(p *Path, fr *frame, a []Value) Value {
		return fromT(mkEq(timeNS(a[0]).term(64), bv(64, 0)))
	}
	I["(time.Time).UnixNano"] = func(p *Path, fr *frame, a []Value) Value { return timeNS(a[0]) }
	I["time.Sleep"] = func(p *Path, fr *frame, a []Value) Value {
		if a[0].conc() {
			p.clock += a[0].u
		}
		p.syncPoint()
		return Value{}
	}

	// ---- math ----
	id := func(p *Path, fr *frame, a []Value) Value { return a[0] }
	I["math.Float64bits"], I["math.Float64frombits"] = id, id
	I["math.Float32bits"], I["math.Float32frombits"] = id, id

	// ---- byte algorithms ----
	ba := "internal/bytealg."
	I[ba+"IndexByte"] = func(p *Path, fr *frame, a []Value) Value { return p.indexByte(bytesOf(a[0]), a[1]) }
	I[ba+"IndexByteString"] = func(p *Path, fr *frame, a []Value) Value { return p.indexByte(a[0].str(), a[1]) }
	I[ba+"LastIndexByte"] = func(p *Path, fr *frame, a []Value) Value { return p.lastIndexByte(bytesOf(a[0]), a[1]) }
	I[ba+"LastIndexByteString"] = func(p *Path, fr *frame, a []Value) Value { return p.lastIndexByte(a[0].str(), a[1]) }
	I[ba+"Count"] = func(p *Path, fr *frame, a []Value) Value { return p.countByte(bytesOf(a[0]), a[1]) }
	I[ba+"CountString"] = func(p *Path, fr *frame, a []Value) Value { return p.countByte(a[0].str(), a[1]) }
	I[ba+"Equal"] = func(p *Path, fr *frame, a []Value) Value { return fromT(p.strEq(p.readBytes(a[0]), p.readBytes(a[1]))) }
	I["bytes.Equal"] = I[ba+"Equal"]
	I[ba+"Compare"] = func(p *Path, fr *frame, a []Value) Value { return ci(p.strCmp(bytesOf(a[0]), bytesOf(a[1]))) }
	I["bytes.Compare"] = I[ba+"Compare"]
	I[ba+"CompareString"] = func(p *Path, fr *frame, a []Value) Value { return ci(p.strCmp(a[0].str(), a[1].str())) }
	I["strings.Compare"] = I[ba+"CompareString"]
	I["strings.Index"] = func(p *Path, fr *frame, a []Value) Value { return p.indexStr(a[0].str(), a[1].str()) }
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["bytes.Index"] = func(p *Path, fr *frame, a []Value) Value { return p.indexStr(bytesOf(a[0]), bytesOf(a[1])) }
	I[ba+"MakeNoZero"] = func(p *Path, fr *frame, a []Value) Value { return p.makeSlice(types.Typ[types.Uint8], a[0], a[0]) }
	I["strings.Clone"] = id
	I["internal/stringslite.Clone"] = id
	// (*strings.Builder).copyCheck compares pointers only
	I["(*strings.Builder).copyCheck"] = noop
	I["internal/abi.NoEscape"] = id
	I["internal/abi.Escape"] = id
	uni := func(n string, f func(r rune) Value) {
		I["unicode."+n] = func(p *Path, fr *frame, a []Value) Value {
			if a[0].conc() {
				return f(rune(int32(uint32(a[0].u))))
			}
			t := a[0].term(32)
			if n == "ToLower" || n == "ToUpper" {
				lo, hi := uint64('A'), uint64('Z')
				d := uint64(32)
				if n == "ToUpper" {
					lo, hi, d = 'a', 'z', ^uint64(31)
				}
				if p.decide(mkUlt(t, bv(32, 0x80))) {
					in := mkAnd(mkUle(bv(32, lo), t), mkUle(t, bv(32, hi)))
					return fromT(mkIte(in, mkAdd(t, bv(32, d)), t))
				}
			}
			return f(rune(int32(uint32(p.concretise(t, 32)))))
		}
	}
	initUnicode(uni)

	// ---- sync ----
	I["(*sync.Mutex).Lock"] = func(p *Path, fr *frame, a []Value) Value { p.lock(a[0]); return Value{} }
	I["(*sync.Mutex).Unlock"] = func(p *Path, fr *frame, a []Value) Value { p.unlock(a[0]); return Value{} }
	I["(*sync.Mutex).TryLock"] = func(p *Path, fr *frame, a []Value) Value {
		p.syncPoint()
		m := p.mtx(a[0])
		if m.locked {
			return cu(0)
		}
		p.lock(a[0])
		return cu(1)
	}
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(p *Path, fr *frame, a []Value) Value { p.rlock(a[0]); return Value{} }
	I["(*sync.RWMutex).RUnlock"] = func(p *Path, fr *frame, a []Value) Value { p.runlock(a[0]); return Value{} }
	I["(*sync.Once).Do"] = func(p *Path, fr *frame, a []Value) Value {
		p.syncPoint()
		m := p.mtx(a[0])
		p.block("once", func() bool { return !m.locked })
		if m.done {
			p.sch.cur.vc.join(m.vc)
			return Value{}
		}
		m.locked = true
		defer func() { // also when f panics
			m.done, m.locked = true, false
			if p.sch.cur != nil && !p.sch.killed {
				g := p.sch.cur
				m.vc = g.vc.copy()
				g.vc.tick(g.id)
			}
		}()
		p.callFV(fr, a[1].x.(*FuncV), nil)
		return Value{}
	}
	I["(*sync.WaitGroup).Add"] = func(p *Path, fr *frame, a []Value) Value {
		p.syncPoint()
		m := p.mtx(a[0])
		m.count += int64(p.conc(a[1], 64))
		g := p.sch.cur
		m.vc.join(g.vc)
		g.vc.tick(g.id)
		if m.count < 0 {
			p.rtpanic("sync: negative WaitGroup counter")
		}
		return Value{}
	}
	I["(*sync.WaitGroup).Done"] = func(p *Path, fr *frame, a []Value) Value {
		return I["(*sync.WaitGroup).Add"](p, fr, []Value{a[0], ci(-1)})
	}
	I["(*sync.WaitGroup).Wait"] = func(p *Path, fr *frame, a []Value) Value {
		p.syncPoint()
		m := p.mtx(a[0])
		p.block("waitgroup wait", func() bool { return m.count == 0 })
		p.sch.cur.vc.join(m.vc)
		return Value{}
	}
	I["(*sync.Pool).Get"] = func(p *Path, fr *frame, a []Value) Value {
		s := p.load(a[0].ptr()).x.(*StructV)
		f := s.f[len(s.f)-1].x.(*FuncV)
		if f == nil {
			return nilIface
		}
		return p.callFV(fr, f, nil)
	}
	I["(*sync.Pool).Put"] = noop
	condL := func(p *Path, v Value) *IfaceV {
		s := p.slot(v.ptr()).x.(*StructV)
		for _, f := range s.f {
			if i, ok := f.x.(*IfaceV); ok && i != nil {
				return i
			}
		}
		return nil
	}
	I["(*sync.Cond).Wait"] = func(p *Path, fr *frame, a []Value) Value {
		l := condL(p, a[0])
		m := p.mtx(a[0])
		m.count++
		my := m.count
		p.callMethod(l, "Unlock")
		p.block("cond wait", func() bool { return int64(m.readers) >= my })
		p.sch.cur.vc.join(m.vc)
		p.callMethod(l, "Lock")
		return Value{}
	}
	I["(*sync.Cond).Signal"] = func(p *Path, fr *frame, a []Value) Value {
		p.syncPoint()
		m := p.mtx(a[0])
		if int64(m.readers) < m.count {
			m.readers++
		}
		m.vc.join(p.sch.cur.vc)
		p.sch.cur.vc.tick(p.sch.cur.id)
		return Value{}
	}
	I["(*sync.Cond).Broadcast"] = func(p *Path, fr *frame, a []Value) Value {
		p.syncPoint()
		m := p.mtx(a[0])
		m.readers = int(m.count)
		m.vc.join(p.sch.cur.vc)
		p.sch.cur.vc.tick(p.sch.cur.id)
		return Value{}
	}
	initAtomic(I)
	initReflect(I)

	// ---- errors ----
	I["errors.Is"] = func(p *Path, fr *frame, a []Value) Value {
		if a[1].ifc() == nil {
			return cb(a[0].ifc() == nil)
		}
		return cb(p.errIs(a[0], a[1]))
	}
	I["errors.As"] = func(p *Path, fr *frame, a []Value) Value {
		tgt := a[1].ifc()
		if tgt == nil {
			p.rtpanic("errors: target cannot be nil")
		}
		pt := tgt.t.Underlying().(*types.Pointer).Elem()
		return cb(p.errAs(a[0], tgt.v.ptr(), pt))
	}
	I["errors.Unwrap"] = func(p *Path, fr *frame, a []Value) Value {
		i := a[0].ifc()
		if i == nil {
			return nilIface
		}
		if f := p.eng.methodByName(i.t, "Unwrap"); f != nil && f.Signature.Results().Len() == 1 && isIface(f.Signature.Results().At(0).Type()) {
			r, _ := p.callMethod(i, "Unwrap")
			return r
		}
		return nilIface
	}
	I["errors.Join"] = func(p *Path, fr *frame, a []Value) Value {
		for _, e := range sliceVals(p, a[0]) {
			if e.ifc() != nil {
				return e
			}
		}
		return nilIface
	}
}

func (p *Path) concStr(v Value) string {
	s := v.str()
	if s.conc {
		return s.s
	}
	return "<symbolic format>"
}

func (p *Path) errIs(err, target Value) bool {
	i := err.ifc()
	if i == nil {
		return false
	}
	if types.Comparable(target.ifc().t) && types.Comparable(i.t) && types.Identical(i.t, target.ifc().t) {
		if p.decide(p.eqVal(types.NewInterfaceType(nil, nil), err, target)) {
			return true
		}
	}
	if f := p.eng.methodByName(i.t, "Is"); f != nil {
		if r, _ := p.callMethod(i, "Is", target); p.truth(r) {
			return true
		}
	}
	if f := p.eng.methodByName(i.t, "Unwrap"); f != nil {
		r, _ := p.callMethod(i, "Unwrap")
		if _, ok := r.x.(*SliceV); ok {
			for _, e := range sliceVals(p, r) {
				if p.errIs(e, target) {
					return true
				}
			}
			return false
		}
		return p.errIs(r, target)
	}
	return false
}

func (p *Path) errAs(err Value, dst *Ptr, t types.Type) bool {
	i := err.ifc()
	if i == nil {
		return false
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if p.eng.implements(i.t, it) {
			p.store(dst, err)
			return true
		}
	} else if types.Identical(i.t, t) {
		p.store(dst, i.v)
		return true
	}
	if f := p.eng.methodByName(i.t, "Unwrap"); f != nil {
		r, _ := p.callMethod(i, "Unwrap")
		if _, ok := r.x.(*SliceV); ok {
			for _, e := range sliceVals(p, r) {
				if p.errAs(e, dst, t) {
					return true
				}
			}
			return false
		}
		return p.errAs(r, dst, t)
	}
	return false
}

// logSlot is the field of a log.Logger that holds its writer.
func (p *Path) logSlot(pt *Ptr) *Value {
	st := p.eng.stdType("log", "Logger").Underlying().(*types.Struct)
	lg := p.slot(pt).x.(*StructV)
	for i := range lg.f {
		if types.IsInterface(st.Field(i).Type()) {
			return &lg.f[i]
		}
	}
	return nil
}
