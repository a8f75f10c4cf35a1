package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

type Stats struct {
	queries, sat, unsat, unknown, cached int64
	nanos                                int64
	crossChecked, crossDisagree          int64
}

type qres struct {
	r Res
	m *Model // values for the query's own vars only
}

type qkey struct{ a, b uint64 }

type qcache struct {
	mu sync.Mutex
	m  map[qkey]*qres
}

func (c *qcache) get(k qkey) *qres {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.m[k]
}
func (c *qcache) put(k qkey, r *qres) {
	c.mu.Lock()
	c.m[k] = r
	c.mu.Unlock()
}

type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	nq       int
	stats    *Stats
	cache    *qcache
	cross    int // cross-check one in `cross` queries with cvc5 (0 = never)
	timeoutM int
	err      string
}

func newSolver(st *Stats, c *qcache, cross, timeoutMs int) *Solver {
	return &Solver{stats: st, cache: c, cross: cross, timeoutM: timeoutMs}
}

func (s *Solver) start() error {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeoutM)
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

type printer struct {
	b     strings.Builder
	names map[*Term]string
	hn    map[[2]uint64]string
	vars  map[string]*Term
	arrs  map[string]uint8
	sels  []*Term
	seln  map[*Term]string
	n     int
	fp    bool
}

func bvConst(w uint8, k uint64) string {
	if w == 0 {
		if k == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), k)
	}
	return fmt.Sprintf("#b%0*b", int(w), k)
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OConst:
		return bvConst(t.w, t.k)
	case OVar:
		p.vars[t.name] = t
		return "|" + t.name + "|"
	}
	if n, ok := p.names[t]; ok {
		return n
	}
	hk := [2]uint64{t.h1, t.h2}
	if n, ok := p.hn[hk]; ok {
		p.names[t] = n
		return n
	}
	var args []string
	for _, a := range t.a {
		if a != nil {
			args = append(args, p.ref(a))
		}
	}
	var e string
	fpw := func(w uint8) string {
		if w == 32 {
			return "8 24"
		}
		return "11 53"
	}
	tofp := func(w uint8, x string) string { return fmt.Sprintf("((_ to_fp %s) %s)", fpw(w), x) }
	switch t.op {
	case OSel:
		p.arrs[t.name] = t.w
		e = fmt.Sprintf("(select |%s| %s)", t.name, args[0])
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, args[0])
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, args[0])
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", uint64(t.w)+t.k-1, t.k, args[0])
	case OF32to64:
		p.fp = true
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", tofp(32, args[0]))
	case OF64to32:
		p.fp = true
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 8 24) RNE %s))", tofp(64, args[0]))
	case OFLt, OFLe, OFEq:
		p.fp = true
		o := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[t.op]
		w := t.a[0].w
		e = fmt.Sprintf("(%s %s %s)", o, tofp(w, args[0]), tofp(w, args[1]))
	case OFAdd, OFSub, OFMul, OFDiv:
		p.fp = true
		o := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		e = fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", o, tofp(t.w, args[0]), tofp(t.w, args[1]))
	case OFromS:
		p.fp = true
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpw(t.w), args[0])
	case OFromU:
		p.fp = true
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpw(t.w), args[0])
	case OToS:
		p.fp = true
		e = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, tofp(t.a[0].w, args[0]))
	default:
		o, ok := opSMT[t.op]
		if !ok {
			panic(fmt.Sprintf("no smt op for %d", t.op))
		}
		e = "(" + o + " " + strings.Join(args, " ") + ")"
	}
	p.n++
	n := fmt.Sprintf("t%d", p.n)
	fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, sortOf(t.w), e)
	p.names[t] = n
	p.hn[hk] = n
	if t.op == OSel {
		p.sels = append(p.sels, t)
		p.seln[t] = n
	}
	return n
}

func newPrinter() *printer {
	return &printer{names: map[*Term]string{}, hn: map[[2]uint64]string{}, vars: map[string]*Term{}, arrs: map[string]uint8{}, seln: map[*Term]string{}}
}

// script renders declarations, definitions and assertions.
func (p *printer) script(cs []*Term) string {
	var asserts []string
	for _, c := range cs {
		asserts = append(asserts, "(assert "+p.ref(c)+")\n")
	}
	var h strings.Builder
	var vn []string
	for n := range p.vars {
		vn = append(vn, n)
	}
	sort.Strings(vn)
	for _, n := range vn {
		v := p.vars[n]
		fmt.Fprintf(&h, "(declare-const |%s| %s)\n", n, sortOf(v.w))
		if v.w > 0 && v.umin > 0 {
			fmt.Fprintf(&h, "(assert (bvule %s |%s|))\n", bvConst(v.w, v.umin), n)
		}
		if v.w > 0 && v.umax < mask(v.w) {
			fmt.Fprintf(&h, "(assert (bvule |%s| %s))\n", n, bvConst(v.w, v.umax))
		}
	}
	var an []string
	for n := range p.arrs {
		an = append(an, n)
	}
	sort.Strings(an)
	for _, n := range an {
		fmt.Fprintf(&h, "(declare-const |%s| (Array (_ BitVec 64) %s))\n", n, sortOf(p.arrs[n]))
	}
	return h.String() + p.b.String() + strings.Join(asserts, "")
}

// check decides the conjunction cs.
func (s *Solver) check(cs []*Term) (Res, *Model) {
	keys := make([][2]uint64, len(cs))
	for i, c := range cs {
		keys[i] = [2]uint64{c.h1, c.h2}
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
	})
	k := qkey{1, 2}
	for _, x := range keys {
		k.a, k.b = mix(k.a, x[0]), mix(k.b+3, x[1])
	}
	if r := s.cache.get(k); r != nil {
		atomic.AddInt64(&s.stats.cached, 1)
		return r.r, r.m
	}
	t0 := time.Now()
	r, m := s.solve(cs)
	atomic.AddInt64(&s.stats.nanos, int64(time.Since(t0)))
	n := atomic.AddInt64(&s.stats.queries, 1)
	switch r {
	case Sat:
		atomic.AddInt64(&s.stats.sat, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.unsat, 1)
	default:
		atomic.AddInt64(&s.stats.unknown, 1)
	}
	if s.cross > 0 && n%int64(s.cross) == 0 && r != Unknown {
		if r2 := crossCheck(cs); r2 != Unknown {
			atomic.AddInt64(&s.stats.crossChecked, 1)
			if r2 != r {
				atomic.AddInt64(&s.stats.crossDisagree, 1)
				r, m = Unknown, nil
			}
		}
	}
	if r != Unknown {
		s.cache.put(k, &qres{r, m})
	}
	return r, m
}

// crossCheck asks cvc5 the same question.
func crossCheck(cs []*Term) Res {
	p := newPrinter()
	body := p.script(cs)
	if p.fp {
		return Unknown
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "cvc5", "--lang=smt2", "-")
	cmd.Stdin = strings.NewReader("(set-logic QF_ABV)\n" + body + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	if err := cmd.Run(); err != nil {
		return Unknown
	}
	switch strings.TrimSpace(out.String()) {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	}
	return Unknown
}

func (s *Solver) solve(cs []*Term) (Res, *Model) {
	if s.cmd != nil && s.nq > 20000 {
		s.close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.err = err.Error()
			return Unknown, nil
		}
		s.nq = 0
	}
	s.nq++
	p := newPrinter()
	body := p.script(cs)
	var b strings.Builder
	b.WriteString("(push 1)\n")
	b.WriteString(body)
	b.WriteString("(check-sat)\n(echo \"@@\")\n")
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		s.err = err.Error()
		s.close()
		return Unknown, nil
	}
	// z3's own timeout does not interrupt every phase
	proc := s.cmd.Process
	dog := time.AfterFunc(time.Duration(s.timeoutM)*time.Millisecond+5*time.Second, func() { proc.Kill() })
	lines, ok := s.readTo()
	dog.Stop()
	if !ok {
		s.close()
		return Unknown, nil
	}
	ans := ""
	for _, l := range lines {
		if strings.Contains(l, "(error") {
			s.err = l
			io.WriteString(s.in, "(pop 1)\n")
			fmt.Fprintln(os.Stderr, "solver error:", l)
			return Unknown, nil
		}
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			ans = l
		}
	}
	res := Unknown
	var m *Model
	switch ans {
	case "sat":
		res = Sat
		m = newModel()
		var names []string
		for n := range p.vars {
			names = append(names, "|"+n+"|")
		}
		for _, t := range p.sels {
			names = append(names, p.seln[t])
		}
		if len(names) > 0 {
			io.WriteString(s.in, "(get-value ("+strings.Join(names, " ")+"))\n(echo \"@@\")\n")
			vl, ok := s.readTo()
			if !ok {
				s.close()
				return Unknown, nil
			}
			vals := parseValues(strings.Join(vl, " "))
			for n, t := range p.vars {
				_ = t
				m.vars[n] = vals[n]
			}
			for _, t := range p.sels {
				v := vals[p.seln[t]]
				i := m.eval(t.a[0])
				if m.arrs[t.name] == nil {
					m.arrs[t.name] = map[uint64]uint64{}
				}
				m.arrs[t.name][i] = v
			}
		}
		// defence: the model must satisfy the query under our own evaluator
		if !p.fp {
			for _, c := range cs {
				if m.eval(c) != 1 {
					s.err = "model does not satisfy constraint under evaluator"
					fmt.Fprintln(os.Stderr, "gosym: model/evaluator mismatch")
					res, m = Unknown, nil
					break
				}
			}
		}
	case "unsat":
		res = Unsat
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res, m
}

func (s *Solver) readTo() ([]string, bool) {
	var out []string
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, false
		}
		l = strings.TrimSpace(l)
		if l == "@@" {
			return out, true
		}
		out = append(out, l)
	}
}

func parseValues(s string) map[string]uint64 {
	out := map[string]uint64{}
	// format: ((name val) (name val) ...)
	i := 0
	next := func() string {
		for i < len(s) && (s[i] == ' ' || s[i] == '(' || s[i] == ')') {
			i++
		}
		j := i
		if i < len(s) && s[i] == '|' {
			j++
			for j < len(s) && s[j] != '|' {
				j++
			}
			r := s[i+1 : j]
			i = j + 1
			return r
		}
		for j < len(s) && s[j] != ' ' && s[j] != ')' && s[j] != '(' {
			j++
		}
		r := s[i:j]
		i = j
		return r
	}
	for {
		n := next()
		if n == "" {
			return out
		}
		v := next()
		switch {
		case v == "true":
			out[n] = 1
		case v == "false":
			out[n] = 0
		case strings.HasPrefix(v, "#x"):
			k, _ := strconv.ParseUint(v[2:], 16, 64)
			out[n] = k
		case strings.HasPrefix(v, "#b"):
			k, _ := strconv.ParseUint(v[2:], 2, 64)
			out[n] = k
		}
	}
}
