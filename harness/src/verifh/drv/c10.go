package drv

import (
	"crypto/tls"
	"net"
	"strings"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"verifh/ref"
	"verifh/v"
)

// tries opens str and reports which kinds of connections were tried.
type tries struct {
	tcp, tls int
	addr     string
	timeout  time.Duration
	cfg      *tls.Config
}

func try(str string) (*tries, error) {
	t := &tries{}
	v.Dial = func(network, addr string, d time.Duration) (net.Conn, error) {
		t.tcp++
		t.addr, t.timeout = addr, d
		return nil, errReset
	}
	v.TLS = func(network, addr string, d time.Duration, cfg *tls.Config) error {
		t.tls++
		t.addr, t.timeout, t.cfg = addr, d, cfg
		return errReset
	}
	_, err := bolt.NewDriver().OpenNeo(str)
	v.Assert(err != nil, "OpenNeo: fails when the server cannot be reached")
	return t, err
}

// C10_Scheme: an arbitrary scheme of 3..5 letters: only bolt in any case is accepted, anything else reaches no network.
func C10_Scheme() {
	b := v.Bytes(v.Concrete(v.Int(3, 5)))
	want := "bolt"
	good := len(b) == 4
	for i := range b {
		v.Assume(b[i] >= 'A' && b[i] <= 'Z' || b[i] >= 'a' && b[i] <= 'z')
		if len(b) == 4 {
			good = v.And(good, b[i]|0x20 == want[i])
		}
	}
	t, _ := try(string(b) + "://host:7687")
	v.Assert(t.tls == 0, "no TLS unless asked for")
	v.Assert((t.tcp == 1) == good, "only the bolt scheme is dialed")
	if t.tcp == 1 {
		v.Reach("dialed")
	} else {
		v.Reach("refused")
	}
}

// C10_User: a user without a password is refused before dialing; user names and passwords do not change what is dialed.
func C10_User() {
	user := escape(v.Str(1))
	switch v.Choose(4) {
	case 3:
		t, _ := try("bolt://@host:7687")
		v.Assert(t.tcp == 0 && t.tls == 0, "a user without a password is refused")
	case 0:
		t, _ := try("bolt://" + user + "@host:7687")
		v.Assert(t.tcp == 0 && t.tls == 0, "a user without a password is refused")
	case 1:
		t, _ := try("bolt://" + user + ":@host:7687")
		v.Assert(t.tcp == 1 && t.tls == 0, "an empty password is a password")
		v.AssertEqStr(t.addr, "host:7687", "the host that is dialed")
	case 2:
		t, _ := try("bolt://u:" + user + "@host:7687")
		v.Assert(t.tcp == 1 && t.tls == 0, "dialed over TCP")
		v.AssertEqStr(t.addr, "host:7687", "the host that is dialed")
	}
}

// C10_Credentials: a user of 1..2 and a password of 0..2 arbitrary bytes, percent-encoded, are the ones that reach the server, from a driver and from a pool.
func C10_Credentials() { auth() }

// C10_Host: the host and port of the connection string are dialed as they are: names of 3 arbitrary letters or digits, ports of 4 arbitrary digits, also of IPv6 addresses, with and without user and query.
func C10_Host() {
	var addr string
	p := v.Bytes(4)
	for _, c := range p {
		v.Assume(c >= '0' && c <= '9')
	}
	if v.Choose(2) == 1 {
		addr = "[fe80::" + string("0a"[v.Choose(2)]) + "]:" + string(p)
	} else {
		h := v.Bytes(3)
		for _, c := range h {
			v.Assume(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '.' || c == '-')
		}
		addr = string(h) + ":" + string(p)
	}
	pre := []string{"bolt://", "bolt://u:p@", "BOLT://u:p@"}[v.Choose(3)]
	post := []string{"", "/", "?timeout=5", "/?x=y"}[v.Choose(4)]
	t, _ := try(pre + addr + post)
	v.Assert(t.tcp == 1 && t.tls == 0, "dialed over TCP")
	v.AssertEqStr(t.addr, addr, "the host that is dialed")
}

// C10_Timeout: a timeout parameter of 0..3 arbitrary characters (digits, signs, letters): an integer is that many seconds, anything else is refused before dialing.
func C10_Timeout() {
	b := v.Bytes(v.Concrete(v.Int(0, 3)))
	neg, digits, n, good := false, 0, 0, true
	for i, c := range b {
		v.Assume(c >= '0' && c <= '9' || c == '-' || c == 's' || c == '.' || c == 'x' || c == '_' || c == 'e')
		switch {
		case c == '-':
			if i > 0 {
				good = false
			}
			neg = true
		case c >= '0' && c <= '9':
			n = n*10 + int(c-'0')
			digits++
		default:
			good = false
		}
	}
	if digits == 0 {
		good = false
	}
	if neg {
		n = -n
	}
	if len(b) == 0 {
		good, n = true, 60
	}
	t, _ := try("bolt://host:7687?timeout=" + string(b))
	v.Assert((t.tcp == 1) == good, "a timeout is an integer")
	if good {
		v.Assert(t.timeout == time.Duration(n)*time.Second, "the timeout in seconds")
		v.Reach("dialed")
	} else {
		v.Reach("refused")
	}
}

// C10_Digits: a timeout of 1..7 arbitrary digits, with or without a sign, is that many seconds.
func C10_Digits() {
	b := v.Bytes(v.Concrete(v.Int(1, 7)))
	n := 0
	for _, c := range b {
		v.Assume(c >= '0' && c <= '9')
		n = n*10 + int(c-'0')
	}
	pre := ""
	if v.Choose(2) == 1 {
		pre, n = "-", -n
	}
	t, _ := try("bolt://u:p@host:7687?timeout=" + pre + string(b))
	v.Assert(t.tcp == 1 && t.tls == 0, "dialed over TCP")
	v.Assert(t.timeout == time.Duration(n)*time.Second, "the timeout in seconds")
}

var bools = []struct {
	s  string
	on bool
}{
	{"1", true}, {"t", true}, {"T", true}, {"true", true}, {"True", true}, {"TRUE", true},
	{"0", false}, {"f", false}, {"false", false}, {"False", false}, {"", false}, {"no", false},
}

// C10_TLS: with every combination of the TLS parameters: TLS is used exactly when asked for and never replaced with a plain connection; verification is off only when asked for; the CA and client certificates are the configured ones; a missing key, a missing file, a CA file without certificates or a bad key pair is refused before dialing.
func C10_TLS() {
	use := bools[v.Choose(len(bools))]
	str := "bolt://u:p@host:7687?tls=" + use.s
	nov := bools[v.Choose(len(bools))]
	if v.Choose(2) == 0 {
		nov = bools[10] // not given
	} else {
		str += "&tls_no_verify=" + nov.s
	}
	ca := v.Choose(4) // none, readable, unreadable, without certificates
	if ca > 0 {
		str += "&tls_ca_cert_file=ca.pem"
	}
	cert := v.Choose(4) // none, without key, good, bad
	if cert > 0 {
		str += "&tls_cert_file=c.pem"
	}
	if cert > 1 {
		str += "&tls_key_file=k.pem"
	}
	timeout := 60 * time.Second
	if v.Choose(2) == 0 {
		d := v.Bytes(1)
		v.Assume(d[0] >= '1' && d[0] <= '9')
		str += "&timeout=" + string(d)
		timeout = time.Duration(d[0]-'0') * time.Second
	}
	pemData := v.Str(2)
	pem := 0
	v.Files = func(name string) ([]byte, error) {
		v.AssertEqStr(name, "ca.pem", "the CA file that is read")
		if ca == 2 {
			return nil, errReset
		}
		return []byte(pemData), nil
	}
	v.PEM = func(b []byte) bool {
		v.AssertEqStr(string(b), pemData, "the CA certificates that are trusted")
		pem++
		return ca != 3
	}
	mark := v.Bytes(2)
	v.KeyPair = func(c, k string) (tls.Certificate, error) {
		v.AssertEqStr(c, "c.pem", "the certificate that is read")
		v.AssertEqStr(k, "k.pem", "the key that is read")
		if cert == 3 {
			return tls.Certificate{}, errReset
		}
		return tls.Certificate{Certificate: [][]byte{mark}}, nil
	}
	t, _ := try(str)
	if !use.on {
		v.Assert(t.tls == 0 && t.tcp == 1, "plain TCP without tls")
		v.Assert(t.timeout == timeout, "the timeout of the dial")
		return
	}
	v.Assert(t.tcp == 0, "no plain connection when TLS is asked for")
	if ca >= 2 || cert == 1 || cert == 3 {
		v.Assert(t.tls == 0, "a TLS configuration that cannot be loaded is refused")
		v.Reach("refused")
		return
	}
	v.Assert(t.tls == 1, "TLS is used")
	v.Assert(t.timeout == timeout, "the timeout of the dial with TLS")
	v.AssertEqStr(t.addr, "host:7687", "the host that is dialed")
	v.Assert(t.cfg.InsecureSkipVerify == nov.on, "verification is off exactly when asked for")
	v.Assert(t.cfg.MinVersion >= tls.VersionTLS10, "TLS 1.0 or later")
	v.Assert(t.cfg.MaxVersion == 0 || t.cfg.MaxVersion >= tls.VersionTLS12, "TLS 1.2 is possible")
	v.Assert((t.cfg.RootCAs != nil) == (ca == 1) && pem == ca, "the configured CA is trusted, or the system's")
	if cert == 2 {
		v.Assert(len(t.cfg.Certificates) == 1, "the configured client certificate")
		v.AssertEqBytes(t.cfg.Certificates[0].Certificate[0], mark, "the configured client certificate")
	} else {
		v.Assert(len(t.cfg.Certificates) == 0, "no client certificate unless configured")
	}
	v.Assert(t.cfg.VerifyPeerCertificate == nil && t.cfg.VerifyConnection == nil && (t.cfg.ServerName == "" || t.cfg.ServerName == "host"), "the standard verification of the host")
	v.Reach("tls")
}

// C10_Two: two connections opened one after the other, from one driver, two drivers or two pools, with strings that differ in their host, user, password, timeout or TLS parameters, in all of them or in none: each is made as its own string says.
func C10_Two() {
	type conf struct {
		host, user, pass string
		timeout          int
		tls, noverify    bool
	}
	a := conf{"one:7687", "u", "p", 60, v.Choose(2) == 1, v.Choose(2) == 1}
	b := a
	switch v.Choose(8) {
	case 1:
		b.host = "two:7687"
	case 2:
		b.user = "w"
	case 3:
		b.pass = "q"
	case 4:
		b.timeout = 5
	case 5:
		b.tls = !b.tls
	case 6:
		b.noverify = !b.noverify
	case 7:
		b = conf{"two:7687", "w", "q", 5, !a.tls, !a.noverify}
	}
	how := v.Choose(3)
	d := bolt.NewDriver()
	for _, c := range []conf{a, b, a} {
		str := "bolt://" + c.user + ":" + c.pass + "@" + c.host + "?x=y"
		if c.timeout != 60 {
			str += "&timeout=5"
		}
		if c.tls {
			str += "&tls=true"
		}
		if c.noverify {
			str += "&tls_no_verify=1"
		}
		s := newServer()
		s.fixed = true
		tcp, secure := 0, 0
		v.Dial = func(network, addr string, t time.Duration) (net.Conn, error) {
			tcp++
			v.AssertEqStr(addr, c.host, "the host of its own string")
			v.Assert(t == time.Duration(c.timeout)*time.Second, "the timeout of its own string")
			return s, nil
		}
		v.TLS = func(network, addr string, t time.Duration, cfg *tls.Config) error {
			secure++
			v.AssertEqStr(addr, c.host, "the host of its own string")
			v.Assert(t == time.Duration(c.timeout)*time.Second, "the timeout of its own string")
			v.Assert(cfg.InsecureSkipVerify == c.noverify, "the verification of its own string")
			return errReset
		}
		var err error
		switch how {
		case 0:
			_, err = d.OpenNeo(str)
		case 1:
			_, err = bolt.NewDriver().OpenNeo(str)
		case 2:
			p, e := bolt.NewDriverPool(str, 1)
			v.Assert(e == nil, "NewDriverPool: succeeds")
			_, err = p.OpenPool()
		}
		v.Assert((err == nil) == !c.tls, "opening succeeds")
		if c.tls {
			v.Assert(secure == 1 && tcp == 0, "TLS is used")
			v.Reach("tls")
			continue
		}
		v.Assert(secure == 0 && tcp == 1, "plain TCP is used")
		f, ok := ref.Fields(s.initMsg[2:], 2)
		v.Assert(ok, "INIT fields")
		ref.Same(f[1], map[string]interface{}{"scheme": "basic", "principal": c.user, "credentials": c.pass}, "INIT token of its own string")
		v.Reach("tcp")
	}
}

// C10_TLSHosts: TLS with any host, port and credentials: verification does not depend on them.
func C10_TLSHosts() {
	host := []string{"localhost", "127.0.0.1", "[::1]", "10.0.0.1", "h", "a.local", "db.example.com", "LOCALHOST"}[v.Choose(8)]
	port := []string{":7687", ":7473", ":443", ":1"}[v.Choose(4)]
	cred := []string{"", "u:p@", "neo4j:neo4j@", ":@"}[v.Choose(4)]
	nov := v.Choose(3)
	str := "bolt://" + cred + host + port + "?tls=true" + []string{"", "&tls_no_verify=false", "&tls_no_verify=true"}[nov]
	if v.Choose(2) == 1 {
		str += "&timeout=7"
	}
	t, _ := try(str)
	v.Assert(t.tcp == 0 && t.tls == 1, "TLS is used")
	v.AssertEqStr(t.addr, host+port, "the host that is dialed")
	v.Assert(t.cfg.InsecureSkipVerify == (nov == 2), "verification is off exactly when asked for")
	v.Assert(t.cfg.RootCAs == nil && len(t.cfg.Certificates) == 0 && t.cfg.VerifyPeerCertificate == nil && t.cfg.VerifyConnection == nil, "the standard verification")
	v.Assert(t.cfg.ServerName == "" || t.cfg.ServerName == strings.Trim(host, "[]"), "the host that is verified")
}
