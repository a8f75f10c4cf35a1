package drv

import (
	"net"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	berr "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"verifh/ref"
	"verifh/v"
)

// opens tries to connect to s and checks that it works exactly if it should.
func opens(s *Server, good bool, msg string) error {
	dialTo(s)
	c, err := bolt.NewDriver().OpenNeo(connStr)
	if good {
		v.Assert(err == nil, msg+": the connection is established")
		s.fixed = true
		_, err = c.ExecNeo("Q", nil)
		v.Assert(err == nil, msg+": the connection works")
		v.Assert(s.closed == 0, msg+": the connection is open")
		v.Assert(c.Close() == nil, msg+": the connection can be closed")
		return nil
	}
	v.Assert(err != nil, msg+": refused")
	v.Assert(s.closed == 1, msg+": the socket is released")
	return err
}

// C09_Version: an arbitrary four byte version reply, in pieces of 1..4 bytes: only the version that was offered is accepted.
func C09_Version() {
	s := newServer()
	s.version = v.Bytes(4)
	s.frag = v.Choose(5)
	good := v.And(v.And(s.version[0] == 0, s.version[1] == 0), v.And(s.version[2] == 0, s.version[3] == 1))
	s.onInit = func() { v.Assert(good, "INIT is sent only for the version that was offered") }
	dialTo(s)
	c, err := bolt.NewDriver().OpenNeo(connStr)
	if err != nil {
		v.Assert(!good, "the offered version is accepted")
		v.Assert(s.closed == 1, "the socket is released")
		v.Reach("refused")
		return
	}
	v.Assert(good, "only the offered version is accepted")
	s.fixed = true
	_, err = c.ExecNeo("Q", nil)
	v.Assert(err == nil, "the connection works")
	v.Reach("accepted")
}

// C09_Short: the server ends the stream after 0..3 bytes of its version, or right after it.
func C09_Short() {
	s := newServer()
	s.version = v.Bytes(v.Concrete(v.Int(0, 3)))
	if v.Choose(2) == 0 {
		s.lateEOF = true
	} else {
		s.lateReset = true
	}
	opens(s, false, "a truncated version reply")
}

// C09_Init: the answer to INIT is success with arbitrary metadata, failure (with the server then closing or not), ignored, a record, a value that is no message, or 1..3 arbitrary bytes.
func C09_Init() {
	s := newServer()
	s.frag, s.split = v.Choose(2)*5, v.Choose(2)*3
	meta := map[string]interface{}{"server": v.Str(2), "n": v.Str(1)}
	switch v.Choose(7) {
	case 0:
		s.initResp = ref.Enc(nil, messages.NewSuccessMessage(meta))
		opens(s, true, "INIT answered with success")
	case 1:
		s.initResp = ref.Enc(nil, messages.NewFailureMessage(meta))
		err := opens(s, false, "INIT answered with a failure")
		e, ok := err.(*berr.Error)
		v.Assert(ok, "the failure to initialize is wrapped")
		f, ok := e.InnerMost().(messages.FailureMessage)
		v.Assert(ok, "the server's failure is the innermost error")
		ref.Same(f.Metadata, meta, "the server's failure")
	case 2:
		// the server closes the connection after the failure
		s.initResp = ref.Enc(nil, messages.NewFailureMessage(meta))
		s.initGone = true
		opens(s, false, "INIT answered with a failure and the end of the stream")
	case 3:
		s.initResp = []byte{0xB0, 0x7E}
		opens(s, false, "INIT ignored")
	case 4:
		s.initResp = ref.Enc(nil, messages.NewRecordMessage([]interface{}{v.Bool()}))
		opens(s, false, "INIT answered with a record")
	case 5:
		s.initResp = ref.Enc(nil, []interface{}{v.Str(1), v.Bool()})
		opens(s, false, "INIT answered with a value")
	case 6:
		s.initResp = v.Bytes(v.Concrete(v.Int(1, 3)))
		s.lateEOF = true
		dialTo(s)
		_, err := bolt.NewDriver().OpenNeo(connStr)
		if err != nil {
			v.Assert(s.closed == 1, "the socket is released")
			return
		}
		x, ok, _ := ref.Dec(s.initResp)
		v.Assert(ok, "only a well formed answer is accepted")
		_, ok = x.(messages.SuccessMessage)
		v.Assert(ok, "only success is accepted")
	}
}

// C09_Faults: the dial fails, or any read, write or deadline of establishing a connection fails in any way.
func C09_Faults() {
	if v.Choose(8) == 0 {
		v.Dial = func(string, string, time.Duration) (net.Conn, error) { return nil, errReset }
		_, err := bolt.NewDriver().OpenNeo(connStr)
		v.Assert(err != nil, "no connection without a socket")
		return
	}
	s := newServer()
	s.faultOp = v.Int(0, 12)
	s.fault = v.Choose(7)
	s.frag = v.Choose(2)
	dialTo(s)
	c, err := bolt.NewDriver().OpenNeo(connStr)
	if err != nil {
		v.Assert(s.faulted, "a healthy server is reached")
		v.Assert(s.closed == 1, "the socket is released")
		v.Assert(s.late == 0, "nothing is read or written after a failure")
		v.Reach("failed")
		return
	}
	v.Assert(s.closed == 0, "the connection is open")
	v.Assert(s.state == stReady, "the server took INIT")
	if !s.faulted {
		c.Close()
		v.Assert(s.closed == 1, "the socket is released")
	}
}

// C09_Auth: a user of 1..2 and a password of 0..2 arbitrary bytes reach the server in INIT unchanged, under basic authentication, with the client's name.
func C09_Auth() { auth() }

// auth opens a connection with arbitrary credentials and checks what reached the server.
func auth() {
	s := newServer()
	s.fixed = true
	dialTo(s)
	user, pass := v.Str(v.Choose(2)), v.Str(v.Choose(3))
	str := "bolt://" + escape(user) + "x:" + escape(pass) + "@host:7687"
	user += "x"
	if v.Choose(2) == 0 {
		str += "?timeout=5"
	}
	if v.Choose(4) == 0 {
		str, user, pass = "bolt://host:7687", "", ""
	}
	var err error
	if v.Choose(2) == 1 {
		p, e := bolt.NewDriverPool(str, 1)
		v.Assert(e == nil, "NewDriverPool: succeeds")
		_, err = p.OpenPool()
	} else {
		_, err = bolt.NewDriver().OpenNeo(str)
	}
	v.Assert(err == nil, "OpenNeo: succeeds")
	f, ok := ref.Fields(s.initMsg[2:], 2)
	v.Assert(ok, "INIT fields")
	ref.Same(f[0], bolt.ClientID, "INIT client name")
	tok, ok := f[1].(map[string]interface{})
	v.Assert(ok, "INIT token is a map")
	if user == "" {
		ref.Same(tok, map[string]interface{}{"scheme": "none"}, "INIT without a user")
		return
	}
	ref.Same(tok["scheme"], "basic", "INIT scheme")
	ref.Same(tok["principal"], user, "INIT user")
	ref.Same(tok["credentials"], pass, "INIT password")
	v.Assert(len(tok) == 3, "INIT token")
}

const hexd = "0123456789ABCDEF"

// escape percent-encodes every byte.
func escape(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		b = append(b, '%', hexd[s[i]>>4], hexd[s[i]&15])
	}
	return string(b)
}

// C09_Long: a user or password of up to 70000 bytes, of the lengths where their encoding changes, and a password with an arbitrary byte that may stand in a URL as it is, reach the server unchanged.
func C09_Long() {
	sizes := []int{15, 16, 31, 32, 100, 255, 256, 300, 70000}
	long := func() string {
		b := make([]byte, sizes[v.Choose(len(sizes))])
		for i := range b {
			b[i] = 'a' + byte(i%23)
		}
		return string(b)
	}
	user, pass := "u", "p"
	switch v.Choose(3) {
	case 0:
		user = long()
	case 1:
		pass = long()
	case 2:
		c := v.U8()
		ok := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
		for _, x := range []byte("-._~!$&'()*+,;=:") {
			ok = ok || c == x
		}
		v.Assume(ok)
		pass = "x" + string([]byte{c}) + "y"
	}
	s := newServer()
	dialTo(s)
	_, err := bolt.NewDriver().OpenNeo("bolt://" + user + ":" + pass + "@host:7687")
	v.Assert(err == nil, "OpenNeo: succeeds")
	f, ok := ref.Fields(s.initMsg[2:], 2)
	v.Assert(ok, "INIT fields")
	tok, ok := f[1].(map[string]interface{})
	v.Assert(ok && len(tok) == 3, "INIT token is a map")
	ref.Same(tok["scheme"], "basic", "INIT scheme")
	ref.Same(tok["principal"], user, "INIT user")
	ref.Same(tok["credentials"], pass, "INIT password")
}
