package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// The native side: the same harnesses, compiled with the Go compiler against
// /repo's current source, fed with concrete inputs.

type NRes struct {
	Idx  int
	Fail string
	Obs  []JObs
	Skip bool
}

func goroot() string {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(out))
}

type ovEdit struct{ file, after, ins string }

var overlayEdits = []ovEdit{
	{"net/dial.go", "func DialTimeout(network, address string, timeout time.Duration) (Conn, error) {", "\n\tif VerifDial != nil {\n\t\treturn VerifDial(network, address, timeout)\n\t}\n"},
	{"net/dial.go", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {", "\n\tif VerifDial != nil {\n\t\treturn VerifDial(network, address, d.Timeout)\n\t}\n"},
	{"net/dial.go", "", "\n// VerifDial replaces dialing when set.\nvar VerifDial func(network, address string, timeout time.Duration) (Conn, error)\n"},
	{"crypto/tls/tls.go", "func DialWithDialer(dialer *net.Dialer, network, addr string, config *Config) (*Conn, error) {", "\n\tif VerifDialTLS != nil {\n\t\treturn nil, VerifDialTLS(network, addr, dialer.Timeout, config)\n\t}\n"},
	{"crypto/tls/tls.go", "func Dial(network, addr string, config *Config) (*Conn, error) {", "\n\tif VerifDialTLS != nil {\n\t\treturn nil, VerifDialTLS(network, addr, 0, config)\n\t}\n"},
	{"crypto/tls/tls.go", "func LoadX509KeyPair(certFile, keyFile string) (Certificate, error) {", "\n\tif VerifLoadKeyPair != nil {\n\t\treturn VerifLoadKeyPair(certFile, keyFile)\n\t}\n"},
	{"crypto/tls/common.go", "", "\nvar VerifDialTLS func(network, addr string, timeout time.Duration, config *Config) error\nvar VerifLoadKeyPair func(certFile, keyFile string) (Certificate, error)\n"},
	{"crypto/x509/cert_pool.go", "func (s *CertPool) AppendCertsFromPEM(pemCerts []byte) (ok bool) {", "\n\tif VerifAppendPEM != nil {\n\t\treturn VerifAppendPEM(pemCerts)\n\t}\n"},
	{"crypto/x509/cert_pool.go", "", "\nvar VerifAppendPEM func(pemCerts []byte) bool\n"},
	{"os/file.go", "func ReadFile(name string) ([]byte, error) {", "\n\tif VerifReadFile != nil {\n\t\treturn VerifReadFile(name)\n\t}\n"},
	{"os/file.go", "", "\nvar VerifReadFile func(name string) ([]byte, error)\n"},
}

func buildNative(hs []*Harness, scratch string, race bool) (string, error) {
	if scratch == "warm" {
		d, err := os.MkdirTemp("", "gosym")
		if err != nil {
			return "", err
		}
		defer os.RemoveAll(d)
		scratch = d
	}
	gr := goroot()
	src := map[string]string{}
	for _, ed := range overlayEdits {
		s, ok := src[ed.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(gr, "src", ed.file))
			if err != nil {
				return "", err
			}
			s = string(b)
		}
		if ed.after == "" {
			s += ed.ins
		} else {
			i := strings.Index(s, ed.after)
			if i < 0 {
				return "", fmt.Errorf("overlay: %q not found in %s", ed.after, ed.file)
			}
			s = s[:i+len(ed.after)] + ed.ins + s[i+len(ed.after):]
		}
		src[ed.file] = s
	}
	ovDir := verifDir + "/build/overlay"
	os.MkdirAll(ovDir, 0755)
	repl := map[string]string{}
	for f, s := range src {
		p := filepath.Join(ovDir, strings.ReplaceAll(f, "/", "_"))
		if old, err := os.ReadFile(p); err != nil || string(old) != s {
			if err := os.WriteFile(p, []byte(s), 0644); err != nil {
				return "", err
			}
		}
		repl[filepath.Join(gr, "src", f)] = p
	}
	ob, _ := json.Marshal(map[string]any{"Replace": repl})
	ovJSON := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ovJSON, ob, 0644)
	dir := filepath.Join(scratch, "src", "verifnative")
	os.MkdirAll(dir, 0755)
	imports := map[string]string{}
	for _, h := range hs {
		p := h.Name[:strings.LastIndexByte(h.Name, '.')]
		if imports[p] == "" {
			imports[p] = fmt.Sprintf("h%d", len(imports))
		}
	}
	_ = sort.Strings
	var m strings.Builder
	m.WriteString("package main\n\nimport (\n\t\"crypto/tls\"\n\t\"crypto/x509\"\n\t\"net\"\n\t\"os\"\n\t\"verifh/v\"\n\t_ \"" + repoPath + "\"\n")
	for _, p := range sortedKeys(imports) {
		fmt.Fprintf(&m, "\t%s %q\n", imports[p], p)
	}
	m.WriteString(")\n\nfunc main() {\n\tv.OnStart = func() {\n\t\tnet.VerifDial = v.DialTCP\n\t\ttls.VerifDialTLS = v.DialTLS\n\t\ttls.VerifLoadKeyPair = v.LoadKeyPair\n\t\tx509.VerifAppendPEM = v.AppendPEM\n\t\tos.VerifReadFile = v.ReadFile\n\t}\n\tv.NativeMain(map[string]func(){\n")
	for _, h := range hs {
		p := h.Name[:strings.LastIndexByte(h.Name, '.')]
		fmt.Fprintf(&m, "\t\t%q: %s.%s,\n", h.Name, imports[p], h.Short)
	}
	m.WriteString("\t})\n}\n")
	if err := os.WriteFile(filepath.Join(dir, "main.go"), []byte(m.String()), 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(scratch, "native")
	args := []string{"build", "-overlay", ovJSON, "-o", bin}
	env := goEnv("GOPATH=" + scratch + ":" + gopath())
	if race {
		bin += "-race"
		args = []string{"build", "-race", "-overlay", ovJSON, "-o", bin}
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command("go", append(args, "verifnative")...)
	cmd.Env = env
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

// runNative runs a batch of witnesses in one process; a crash loses the rest.
func runNative(bin, scratch string, ws []*Witness, timeout time.Duration, extra ...string) ([]*NRes, string) {
	in, _ := json.Marshal(ws)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, extra...)
	cmd.Dir = scratch
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOTRACEBACK=single")
	err := cmd.Run()
	res := make([]*NRes, len(ws))
	dec := json.NewDecoder(&out)
	for {
		var r NRes
		if dec.Decode(&r) != nil {
			break
		}
		if r.Idx >= 0 && r.Idx < len(res) {
			c := r
			res[r.Idx] = &c
		}
	}
	msg := ""
	if err != nil {
		msg = err.Error()
		if ctx.Err() != nil {
			msg = "timeout"
		}
		s := errb.String()
		if len(s) > 1500 {
			s = s[:1500]
		}
		msg += ": " + s
	}
	return res, msg
}

func runNativeBatch(bin, scratch string, ws []*Witness) []*NRes {
	out := make([]*NRes, len(ws))
	for i := 0; i < len(ws); {
		j := len(ws)
		rs, msg := runNative(bin, scratch, ws[i:j], 120*time.Second)
		k := 0
		for k < len(rs) && rs[k] != nil {
			out[i+k] = rs[k]
			k++
		}
		if k == len(rs) {
			break
		}
		// the process died on item i+k
		out[i+k] = &NRes{Fail: "process died: " + msg}
		i += k + 1
	}
	return out
}

// confirm replays a counterexample; true when the real code fails on it too.
func confirm(bin, scratch string, w *Witness, hs []*Harness) (bool, string) {
	runs := 1
	if w.Conc || len(w.Sched) > 0 {
		runs = 12
	}
	last := ""
	for i := 0; i < runs; i++ {
		rs, msg := runNative(bin, scratch, []*Witness{w}, 60*time.Second)
		if rs[0] == nil {
			return true, "process died: " + msg
		}
		if rs[0].Fail != "" {
			return true, rs[0].Fail
		}
		last = "native run passes"
		if rs[0].Skip {
			last = "native run violates an assumption"
		}
	}
	return false, last
}

func diffObs(a, b []JObs) string {
	if len(a) != len(b) {
		return fmt.Sprintf("observations: engine %d, native %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("observation %d: engine %s=%.80s native %s=%.80s", i, a[i].L, a[i].V, b[i].L, b[i].V)
		}
	}
	return ""
}
