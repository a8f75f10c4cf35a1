package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/johnnadratowski/golang-neo4j-bolt-driver"

type Engine struct {
	prog       *ssa.Program
	fset       *token.FileSet
	cfuncs     sync.Map
	mu         sync.Mutex
	initSlices map[*ssa.Global][]slInstr
	gmu        sync.Mutex
	gidx       map[*ssa.Global]int
	gtab       []*ssa.Global
	branches   int64
	tier       int
	rtErrType  types.Type
	rtypePtr   types.Type
	deadline   time.Time
	stop       int32
	methods    sync.Map
	byName     map[string]*ssa.Package
	harnesses  []*Harness
	impl       sync.Map
}

type Harness struct {
	Name  string // verifh/enc.C01_Foo
	Prop  string
	Short string
	Doc   string
	fn    *ssa.Function
	entry *CFunc
}

type mkey struct {
	t types.Type
	n string
}

func (e *Engine) globalIndex(g *ssa.Global) int {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	if i, ok := e.gidx[g]; ok {
		return i
	}
	i := len(e.gtab)
	e.gidx[g] = i
	e.gtab = append(e.gtab, g)
	return i
}

func (e *Engine) globalAt(i int) *ssa.Global {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	return e.gtab[i]
}

func (e *Engine) fullInit(pkg *ssa.Package) bool {
	p := pkg.Pkg.Path()
	return strings.HasPrefix(p, repoPath) || strings.HasPrefix(p, "verifh/")
}

func isRepo(p string) bool { return strings.HasPrefix(p, repoPath) }

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	if t == e.rtypePtr {
		return true
	}
	k := mkey{t, ""}
	type ik struct {
		k mkey
		i *types.Interface
	}
	if v, ok := e.impl.Load(ik{k, it}); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	e.impl.Store(ik{k, it}, r)
	return r
}

func (e *Engine) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m.Name()}
	if !m.Exported() {
		k.n = m.Id()
	}
	if f, ok := e.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := e.prog.MethodValue(sel)
	if f != nil {
		e.methods.Store(k, f)
	}
	return f
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	k := mkey{t, name}
	if f, ok := e.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	sel := e.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f := e.prog.MethodValue(sel)
	if f != nil {
		e.methods.Store(k, f)
	}
	return f
}

func (e *Engine) pkg(path string) *ssa.Package {
	p := e.byName[path]
	if p == nil {
		unsup("package not loaded: " + path)
	}
	return p
}

func (e *Engine) stdFunc(pkg, name string) *CFunc {
	f := e.pkg(pkg).Func(name)
	if f == nil {
		unsup("no function " + pkg + "." + name)
	}
	return e.cfunc(f)
}

func (e *Engine) stdType(pkg, name string) types.Type {
	t := e.pkg(pkg).Type(name)
	if t == nil {
		unsup("no type " + pkg + "." + name)
	}
	return t.Type()
}

func (e *Engine) expired() bool {
	if atomic.LoadInt32(&e.stop) != 0 {
		return true
	}
	if time.Now().After(e.deadline) {
		atomic.StoreInt32(&e.stop, 1)
		return true
	}
	return false
}

var harnessRe = regexp.MustCompile(`^([A-Z]\d\d+)_(T_)?[A-Za-z0-9_]+$`)

func goEnv(extra ...string) []string {
	var env []string
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOFLAGS", "GOPATH", "GO111MODULE", "GOWORK", "GOROOT", "GOCACHE", "CGO_ENABLED", "GOENV", "GOTOOLCHAIN", "GOPROXY":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GO111MODULE=off", "GOFLAGS=", "GOENV=off", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0", "GOCACHE="+verifDir+"/build/gocache")
	return append(env, extra...)
}

func (e *Engine) load(patterns []string) error {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Fset: token.NewFileSet(),
		Dir:  verifDir + "/harness",
		Env:  goEnv("GOPATH=" + gopath()),
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	e.prog, e.fset = prog, cfg.Fset
	e.initSlices = map[*ssa.Global][]slInstr{}
	e.gidx = map[*ssa.Global]int{}
	e.byName = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.byName[p.Pkg.Path()] = p
	}
	if rt := e.byName["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			e.rtErrType = t.Type()
		}
	}
	if rf := e.byName["reflect"]; rf != nil {
		e.rtypePtr = types.NewPointer(rf.Type("rtype").Type())
	}
	for i, p := range pkgs {
		if p == nil {
			continue
		}
		docs := map[string]string{}
		for _, f := range initial[i].Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
					docs[fd.Name.Name] = strings.TrimSpace(fd.Doc.Text())
				}
			}
		}
		for n, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			mm := harnessRe.FindStringSubmatch(n)
			if mm == nil {
				continue
			}
			if mm[2] != "" && e.tier == 0 {
				continue
			}
			e.harnesses = append(e.harnesses, &Harness{Name: p.Pkg.Path() + "." + n, Prop: mm[1], Short: n, Doc: docs[n], fn: f, entry: e.cfunc(f)})
		}
	}
	sort.Slice(e.harnesses, func(i, j int) bool { return e.harnesses[i].Name < e.harnesses[j].Name })
	return nil
}

// covered lists the functions symbolically executed, by package group.
func (e *Engine) covered() (repo []string, other int) {
	e.cfuncs.Range(func(k, v any) bool {
		c := v.(*CFunc)
		if atomic.LoadInt32(&c.covered) == 0 {
			return true
		}
		fn := c.fn
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if fn.Pkg != nil && isRepo(fn.Pkg.Pkg.Path()) {
			repo = append(repo, strings.ReplaceAll(c.name, repoPath, "bolt"))
		} else {
			other++
		}
		return true
	})
	sort.Strings(repo)
	return
}
