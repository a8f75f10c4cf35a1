package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type JInput struct {
	K string `json:"k"`
	V string `json:"v"`
	N string `json:"n,omitempty"`
}

type JObs struct {
	L string `json:"l"`
	V string `json:"v"`
}

type Witness struct {
	Harness string   `json:"harness"`
	Msg     string   `json:"msg,omitempty"`
	Site    string   `json:"site,omitempty"`
	Inputs  []JInput `json:"inputs"`
	Obs     []JObs   `json:"obs,omitempty"`
	Sched   []string `json:"schedule,omitempty"`
	Conc    bool     `json:"concurrent,omitempty"`
	Tier    int      `json:"tier"`
}

type viol struct {
	key   string
	msg   string
	site  string
	wit   []*Witness
	count int
}

type hstate struct {
	h        *Harness
	stack    []*workItem
	active   int
	paths    map[string]int
	viols    map[string]*viol
	vorder   []string
	samples  []*Witness
	okSeen   int
	reach    map[string]int
	incompl  map[string]int
	steps    int64
	asserts  int64
	inputs   int
	maxDepth int
	stopped  string
	wall     time.Duration
	left     int
}

type explorer struct {
	e       *Engine
	mu      sync.Mutex
	cond    *sync.Cond
	hs      []*hstate
	rr      int
	stats   *Stats
	cache   *qcache
	rng     *rand.Rand
	nSample int
	maxSt   int64
	maxPath int
}

func explore(e *Engine, hs []*Harness, workers int, seed int64, nSample int, maxSteps int64, maxPath, cross, qtimeout int) *explorer {
	x := &explorer{e: e, stats: &Stats{}, cache: &qcache{m: map[qkey]*qres{}}, rng: rand.New(rand.NewSource(seed)), nSample: nSample, maxSt: maxSteps, maxPath: maxPath}
	x.cond = sync.NewCond(&x.mu)
	for _, h := range hs {
		x.hs = append(x.hs, &hstate{h: h, stack: []*workItem{{h, nil, newModel()}}, paths: map[string]int{}, viols: map[string]*viol{}, reach: map[string]int{}, incompl: map[string]int{}})
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sv := newSolver(x.stats, x.cache, cross, qtimeout)
			defer sv.close()
			x.worker(sv)
		}()
	}
	wg.Wait()
	return x
}

func (x *explorer) worker(sv *Solver) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		var st *hstate
		if x.e.expired() {
			for _, h := range x.hs {
				if len(h.stack) > 0 {
					h.left += len(h.stack)
					h.stopped = "time budget"
					h.stack = nil
				}
			}
			x.cond.Broadcast()
		}
		active := 0
		best := -1
		for i := range x.hs {
			h := x.hs[(x.rr+i)%len(x.hs)]
			active += h.active
			if len(h.stack) > 0 && (best < 0 || h.active < best) {
				best = h.active
				st = h
			}
		}
		x.rr++
		if st == nil {
			if active == 0 {
				x.cond.Broadcast()
				return
			}
			x.cond.Wait()
			continue
		}
		it := st.stack[len(st.stack)-1]
		st.stack = st.stack[:len(st.stack)-1]
		st.active++
		x.mu.Unlock()
		t0 := time.Now()
		p, end := x.runPath(it, sv)
		d := time.Since(t0)
		x.mu.Lock()
		st.wall += d
		st.active--
		x.record(st, p, end)
		x.cond.Broadcast()
	}
}

func (x *explorer) runPath(it *workItem, sv *Solver) (*Path, *pathEnd) {
	p := &Path{eng: x.e, h: it.h, sv: sv, prefix: it.prefix, model: it.model,
		known: map[[2]uint64]bool{}, varsOf: map[*Term][]uint64{}, reach: map[string]bool{},
		maxSt: x.maxSt, pkgState: map[*ssa.Package]int{}, globBusy: map[*ssa.Global]bool{},
		mutexes: map[ptrKey]*mutexState{}, allocLim: 1 << 30, side: map[any]Value{}, tags: map[string]Value{},
	}
	end := p.exec(it.h.entry)
	return p, end
}

func (p *Path) witness() *Witness {
	w := &Witness{Harness: p.h.Name, Tier: p.eng.tier, Sched: p.schedLog, Conc: p.race != nil}
	m := p.model
	for _, in := range p.inputs {
		switch in.Kind {
		case "u":
			w.Inputs = append(w.Inputs, JInput{K: "u", V: strconv.FormatUint(m.eval(in.t), 10), N: in.Name})
		case "b":
			n := in.n.u
			if !in.n.conc() {
				n = m.eval(in.n.term(64))
			}
			if n > 1<<24 {
				n = 1 << 24
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(m.evalV(in.sn.read(cu(uint64(i))), 8))
			}
			w.Inputs = append(w.Inputs, JInput{K: "b", V: hex.EncodeToString(b)})
		}
	}
	for _, o := range p.obsv {
		switch o.kind {
		case "i":
			w.Obs = append(w.Obs, JObs{o.label, strconv.FormatInt(int64(m.evalV(o.v, o.w)), 10)})
		case "b":
			w.Obs = append(w.Obs, JObs{o.label, strconv.FormatBool(m.evalV(o.v, 0) == 1)})
		case "s":
			s := o.s
			if o.sn != nil {
				n := m.evalV(o.n, 64)
				off := m.evalV(o.off, 64)
				if n > 1<<24 {
					n = 1 << 24
				}
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(m.evalV(o.sn.read(cu(off+uint64(i))), 8))
				}
				s = string(b)
			}
			w.Obs = append(w.Obs, JObs{o.label, hex.EncodeToString([]byte(s))})
		}
	}
	return w
}

func (m *Model) evalV(v Value, w uint8) uint64 {
	if v.conc() {
		return v.u
	}
	return m.eval(v.term(w))
}

func (x *explorer) record(st *hstate, p *Path, end *pathEnd) {
	st.paths[end.kind]++
	st.steps += p.steps
	st.asserts += p.asserts
	if len(p.inputs) > st.inputs {
		st.inputs = len(p.inputs)
	}
	if len(p.trace) > st.maxDepth {
		st.maxDepth = len(p.trace)
	}
	for k, n := range p.incompl {
		st.incompl[k] += n
	}
	if st.stopped == "" {
		st.stack = append(st.stack, p.newItems...)
	} else {
		st.left += len(p.newItems)
	}
	switch end.kind {
	case "ok":
		for r := range p.reach {
			st.reach[r]++
		}
		st.okSeen++
		if len(st.samples) < x.nSample {
			st.samples = append(st.samples, p.witness())
		} else if k := x.rng.Intn(st.okSeen); k < x.nSample {
			st.samples[k] = p.witness()
		}
	case "violation":
		site := topSite(end.site)
		key := end.msg + " @ " + site
		v := st.viols[key]
		if v == nil {
			v = &viol{key: key, msg: end.msg, site: end.site}
			st.viols[key] = v
			st.vorder = append(st.vorder, key)
		}
		v.count++
		if len(v.wit) < 3 {
			w := p.witness()
			w.Msg, w.Site = end.msg, end.site
			v.wit = append(v.wit, w)
		}
		if st.paths["violation"] >= 60 && st.stopped == "" {
			st.stopped = "stopped after 60 violating paths"
			st.left += len(st.stack)
			st.stack = nil
		}
	case "bound", "unsupported":
		m := end.kind + ": " + end.msg
		if end.kind == "unsupported" {
			m += " @ " + strings.ReplaceAll(strings.TrimSpace(end.site), "\n", " < ")
		}
		if len(m) > 600 && os.Getenv("GOSYM_DEBUG") == "" {
			m = m[:600]
		}
		st.incompl[m]++
	}
	n := 0
	for _, c := range st.paths {
		n += c
	}
	if n >= x.maxPath && st.stopped == "" {
		st.stopped = fmt.Sprintf("path limit %d", x.maxPath)
		st.left += len(st.stack)
		st.stack = nil
	}
	if os.Getenv("GOSYM_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "path %s: %s %s steps=%d decisions=%d queue=%d q=%d\n", st.h.Short, end.kind, end.msg, p.steps, len(p.trace), len(st.stack), atomic.LoadInt64(&x.stats.queries))
	}
}

// topSite: the innermost frame that is in the repository or harness.
func topSite(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, repoPath) || strings.Contains(l, "verifh/") && !strings.Contains(l, "verifh/v.") {
			// function name only: stable across edits
			if i := strings.LastIndexByte(l, ' '); i > 0 {
				l = l[:i]
			}
			return strings.ReplaceAll(l, repoPath, "bolt")
		}
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
