package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

var verifDir = "/verif"

// repoDir is the tree that is checked, evDir where evidence goes. Both can be
// redirected for mutation testing; registered commands use the defaults.
var repoDir, evDir = "/repo", ""

const repoImport = "github.com/johnnadratowski/golang-neo4j-bolt-driver"

var gopathDirs string

// gopath is the harness tree and a GOPATH of our own with the repository
// linked at its import path.
func gopath() string {
	if gopathDirs == "" {
		s := sha256.Sum256([]byte(repoDir))
		d := verifDir + "/build/gopath-" + hex.EncodeToString(s[:4])
		link := filepath.Join(d, "src", repoImport)
		if cur, err := os.Readlink(link); err != nil || cur != repoDir {
			os.MkdirAll(filepath.Dir(link), 0755)
			os.Remove(link)
			if err := os.Symlink(repoDir, link); err != nil {
				fmt.Fprintln(os.Stderr, "gosym:", err)
			}
		}
		gopathDirs = verifDir + "/harness:" + d
	}
	return gopathDirs
}

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("GOSYM_REPO"); d != "" {
		repoDir = d
	}
	evDir = verifDir + "/evidence"
	if d := os.Getenv("GOSYM_EVIDENCE"); d != "" {
		evDir = d
	}
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check -prop ID [-tier quick|thorough] | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		e := &Engine{tier: 1}
		if err := e.load([]string{"verifh/..."}); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, h := range e.harnesses {
			fmt.Println(h.Prop, h.Name)
		}
	case "prebuild":
		if _, err := buildNative(nil, "warm", false); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	default:
		os.Exit(2)
	}
}

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Status   string `json:"status"` // "finding" or "fixed"
}

func loadKnown() []known {
	f, err := os.Open(verifDir + "/known-findings.jsonl")
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "finding" {
			out = append(out, k)
		}
	}
	return out
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tierS := fs.String("tier", "", "quick or thorough")
	only := fs.String("only", "", "only harnesses containing this substring (debugging)")
	budget := fs.Int("budget", 0, "exploration budget in seconds")
	workers := fs.Int("workers", 0, "workers")
	noNative := fs.Bool("no-native", false, "skip native validation (debugging)")
	fs.Parse(args)
	t0 := time.Now()
	if *tierS == "" {
		*tierS = os.Getenv("VERIF_TIER")
	}
	if *tierS != "thorough" {
		*tierS = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	e := &Engine{}
	if *tierS == "thorough" {
		e.tier = 1
	}
	b := *budget
	if b == 0 {
		b = 240
		if e.tier == 1 {
			b = 780
		}
	}
	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if nw > 8 {
		nw = 8
	}
	if err := e.load([]string{"verifh/..."}); err != nil {
		fmt.Fprintln(os.Stderr, "gosym: the tree does not load:", err)
		return 3
	}
	loadS := time.Since(t0).Seconds()
	e.deadline = time.Now().Add(time.Duration(b) * time.Second)
	var hs []*Harness
	for _, h := range e.harnesses {
		if h.Prop == *prop && (*only == "" || strings.Contains(h.Name, *only)) {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "gosym: no harness for", *prop)
		return 3
	}
	// native build in parallel with the exploration
	type nres struct {
		bin string
		err error
	}
	nch := make(chan nres, 1)
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(scratch)
	if !*noNative {
		go func() {
			bin, err := buildNative(hs, scratch, false)
			nch <- nres{bin, err}
		}()
	}
	nSample, maxSt, maxPath := 25, int64(200_000_000), 400000
	if e.tier == 1 {
		nSample, maxSt, maxPath = 60, 400_000_000, 2_000_000
	}
	cross := 97
	x := explore(e, hs, nw, seed, nSample, maxSt, maxPath, cross, 20000)
	if forkProf != nil {
		forkProf.dump()
	}
	exploreS := time.Since(t0).Seconds() - loadS

	bin := ""
	var nerr error
	if !*noNative {
		r := <-nch
		bin, nerr = r.bin, r.err
		if nerr != nil {
			fmt.Fprintln(os.Stderr, "gosym: native build failed:", nerr)
		}
	}
	// ---- violations: replay on the real build ----
	kn := loadKnown()
	type vrep struct {
		Harness, Msg, Native, Replay string
		Paths                        int
		Confirmed                    bool
		Known                        bool
	}
	var reps []vrep
	nviol := 0
	printed := map[string]bool{}
	os.MkdirAll(evDir+"/replay", 0755)
	report := func(w *Witness, native string) {
		nviol++
		p := writeReplay(*prop, w, native)
		if nviol <= 10 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
			fmt.Printf("  %s: %s\n  native replay: %s\n", w.Harness, w.Msg, native)
			for i, l := range strings.Split(strings.TrimSpace(w.Site), "\n") {
				if i < 12 && l != "" {
					fmt.Printf("    at %s\n", l)
				}
			}
		}
	}
	for _, st := range x.hs {
		for _, key := range st.vorder {
			v := st.viols[key]
			if k := matchKnown(kn, *prop, st.h, v.msg); k != nil {
				if !printed[k.What] {
					printed[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
				}
				reps = append(reps, vrep{st.h.Name, v.msg, "", "", v.count, true, true})
				continue
			}
			ok, native := false, "not run"
			var w *Witness
			if bin != "" {
				for _, w = range v.wit {
					ok, native = confirm(bin, scratch, w, hs)
					if ok {
						break
					}
				}
			} else if *noNative {
				w = v.wit[0]
				ok = true
			}
			if !ok && v.wit[0].Conc && bin != "" {
				// schedule-dependent: the interleaving cannot be forced on the
				// native scheduler; the engine's execution of the real code is
				// the witness.
				w, ok = v.wit[0], true
				native = "interleaving not reproduced by the native scheduler in repeated runs (" + native + "); witness is the schedule in the replay file"
			}
			reps = append(reps, vrep{st.h.Name, v.msg, native, "", v.count, ok, false})
			if ok {
				report(w, native)
			} else {
				fmt.Fprintf(os.Stderr, "gosym: counterexample NOT reproduced natively, not reported: %s: %s (%s)\n%s\n", st.h.Name, v.msg, native, v.site)
				os.MkdirAll(evDir+"/replay", 0755)
				bb, _ := json.MarshalIndent(v.wit[0], "", " ")
				os.WriteFile(evDir+"/replay/unconfirmed-"+*prop+".json", bb, 0644)
			}
		}
	}
	// ---- sampled paths: the engine and the real build must agree ----
	var batch []*Witness
	for _, st := range x.hs {
		batch = append(batch, st.samples...)
	}
	validated, mism := 0, []string{}
	if bin != "" && len(batch) > 0 {
		rs := runNativeBatch(bin, scratch, batch)
		for i, r := range rs {
			w := batch[i]
			switch {
			case r == nil:
				mism = append(mism, w.Harness+": no native result")
			case r.Fail != "":
				if k := matchKnown(kn, *prop, &Harness{Name: w.Harness}, r.Fail); k != nil {
					continue
				}
				ok, nat := confirm(bin, scratch, w, hs)
				if ok {
					w.Msg = r.Fail
					report(w, nat)
				} else {
					mism = append(mism, w.Harness+": native failure not repeated: "+r.Fail)
				}
			default:
				if d := diffObs(w.Obs, r.Obs); d != "" {
					mism = append(mism, w.Harness+": "+d)
					bb, _ := json.MarshalIndent(w, "", " ")
					os.WriteFile(evDir+"/replay/mismatch-"+*prop+".json", bb, 0644)
				} else {
					validated++
				}
			}
		}
	}
	for i, m := range mism {
		if i < 5 {
			fmt.Fprintln(os.Stderr, "gosym: engine/native disagreement:", m)
		}
	}
	// ---- evidence ----
	repo, other := e.covered()
	paths, steps, asserts, left := 0, int64(0), int64(0), 0
	exhaustive := true
	var hrep []map[string]any
	for _, st := range x.hs {
		n := 0
		for _, c := range st.paths {
			n += c
		}
		paths += n
		steps += st.steps
		asserts += st.asserts
		left += st.left
		if st.stopped != "" || len(st.incompl) > 0 || st.left > 0 {
			exhaustive = false
		}
		vac := ""
		if st.paths["ok"] == 0 && len(st.viols) == 0 {
			vac = "VACUOUS: no path reached the end of the harness"
			fmt.Fprintln(os.Stderr, "gosym:", st.h.Name, vac)
			exhaustive = false
		}
		hrep = append(hrep, map[string]any{
			"harness": st.h.Name, "bounds": st.h.Doc, "paths": st.paths, "reached": st.reach,
			"assertions_discharged": st.asserts, "instructions": st.steps, "max_symbolic_inputs": st.inputs,
			"max_decisions": st.maxDepth, "incomplete": st.incompl, "stopped": st.stopped, "unexplored": st.left, "vacuity": vac,
			"cpu_s": round(st.wall.Seconds()),
		})
	}
	var samples []any
	for i, w := range batch {
		if i%((len(batch)/4)+1) == 0 {
			samples = append(samples, trimW(w))
		}
	}
	ev := map[string]any{
		"property": *prop, "tier": *tierS, "seed": seed, "level": "model_checking",
		"wall_s":     round(time.Since(t0).Seconds()),
		"violations": nviol,
		"coverage": map[string]any{
			"states": paths, "transitions": steps, "traces_validated_against_impl": validated,
			"samples": samples, "exhaustive": exhaustive,
			"technique":              "symbolic execution of the Go SSA of /repo's current source; branch feasibility and assertions decided by z3 (bit-vectors, arrays)",
			"functions_encoded":      repo,
			"other_functions":        other,
			"harnesses":              hrep,
			"assertions_discharged":  asserts,
			"branch_points_decided":  e.branches,
			"solver_queries":         x.stats.queries,
			"solver_sat":             x.stats.sat,
			"solver_unsat":           x.stats.unsat,
			"solver_unknown":         x.stats.unknown,
			"solver_cached":          x.stats.cached,
			"solver_time_s":          round(float64(x.stats.nanos) / 1e9),
			"cvc5_cross_checked":     x.stats.crossChecked,
			"cvc5_disagreements":     x.stats.crossDisagree,
			"load_s":                 round(loadS),
			"explore_s":              round(exploreS),
			"engine_native_mismatch": mism,
			"counterexamples":        reps,
			"unexplored_branches":    left,
		},
		"assumptions": []string{
			"Go SSA (golang.org/x/tools/go/ssa) represents the source; GOARCH=amd64",
			"models of net.Dial*, tls.Dial*, file reads, fmt, log, time.Now, sync and reflect replace the library bodies (see DESIGN.md)",
			"inputs beyond the bounds stated per harness are outside the claim",
		},
	}
	bb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(evDir, 0755)
	if *only == "" {
		os.WriteFile(evDir+"/"+*prop+".json", bb, 0644)
	} else {
		os.WriteFile(evDir+"/debug.json", bb, 0644)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions, %d queries (%d unknown), solver %.1fs, validated %d, mismatches %d, exhaustive=%v, violations=%d, %.1fs\n",
		*prop, *tierS, len(hs), paths, asserts, x.stats.queries, x.stats.unknown, float64(x.stats.nanos)/1e9, validated, len(mism), exhaustive, nviol, time.Since(t0).Seconds())
	for _, st := range x.hs {
		if os.Getenv("GOSYM_V") != "" || len(st.incompl) > 0 || st.stopped != "" {
			fmt.Printf("  %s: %v reach=%v asserts=%d cpu=%.1fs %s\n", st.h.Short, st.paths, st.reach, st.asserts, st.wall.Seconds(), st.stopped)
			for _, k := range sortedKeys(st.incompl) {
				fmt.Printf("    incomplete x%d: %s\n", st.incompl[k], k)
			}
		}
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }

func trimW(w *Witness) any {
	c := *w
	c.Inputs = nil
	for i, in := range w.Inputs {
		if i > 40 {
			break
		}
		if len(in.V) > 160 {
			in.V = in.V[:160] + "..."
		}
		c.Inputs = append(c.Inputs, in)
	}
	c.Obs = nil
	for i, in := range w.Obs {
		if i > 10 {
			break
		}
		if len(in.V) > 160 {
			in.V = in.V[:160] + "..."
		}
		c.Obs = append(c.Obs, in)
	}
	return c
}

func matchKnown(kn []known, prop string, h *Harness, msg string) *known {
	for i := range kn {
		k := &kn[i]
		if k.Property == prop && strings.HasSuffix(h.Name, k.Harness) && k.Msg == msg {
			return k
		}
	}
	return nil
}

func writeReplay(prop string, w *Witness, native string) string {
	bb, _ := json.MarshalIndent(map[string]any{"witness": w, "native": native, "how": "engine: gosym replay <this file> runs the harness natively on these inputs"}, "", " ")
	s := sha256.Sum256(bb)
	p := filepath.Join(evDir, "replay", prop+"-"+hex.EncodeToString(s[:5])+".json")
	os.WriteFile(p, bb, 0644)
	return p
}

func cmdReplay(args []string) int {
	if len(args) < 1 {
		return 2
	}
	bb, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var d struct{ Witness *Witness }
	if err := json.Unmarshal(bb, &d); err != nil || d.Witness == nil {
		d.Witness = &Witness{}
		if err := json.Unmarshal(bb, d.Witness); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	i := strings.LastIndexByte(d.Witness.Harness, '.')
	h := &Harness{Name: d.Witness.Harness, Short: d.Witness.Harness[i+1:]}
	scratch, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(scratch)
	bin, err := buildNative([]*Harness{h}, scratch, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ok, msg := confirm(bin, scratch, d.Witness, []*Harness{h})
	fmt.Println(msg)
	if ok {
		return 1
	}
	return 0
}
