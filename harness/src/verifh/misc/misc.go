// Package misc holds the harnesses for the error and logging packages.
package misc

import (
	"database/sql/driver"
	stderr "errors"
	"io"
	stdlog "log"
	"strings"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"verifh/v"
)

// cause is an arbitrary innermost error: nil stands for one made by New.
func cause() error {
	switch v.Choose(6) {
	case 3:
		return io.EOF
	case 4:
		return driver.ErrBadConn
	case 5:
		return custom{"root"}
	case 0:
		return stderr.New("root")
	case 1:
		return messages.NewFailureMessage(map[string]interface{}{"message": "root", "code": v.Str(1)})
	}
	return nil
}

type custom struct{ s string }

func (c custom) Error() string { return c.s }

// C25_Chain: an error wrapped 0..6 times: InnerMost is the first cause, Inner the one directly below, and the text has every message from the outside in.
func C25_Chain() {
	c := cause()
	var root, cur error = c, c
	x := "%s"
	if v.Choose(2) == 1 {
		x = v.Str(1)
	}
	if c == nil {
		e := errors.New("root %d%s", 7, x)
		v.Assert(e.Inner() == nil, "Inner: nothing below a new error")
		root, cur = e, e
	}
	msgs := []string{}
	n := v.Choose(7)
	if c != nil && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		w := "100%d"
		if i == n/2 {
			w = x
		}
		e := errors.Wrap(cur, "level%d %s.", i, w)
		in := e.Inner()
		v.Assert(same(in, cur), "Inner: the wrapped error")
		msgs = append(msgs, "level"+string(rune('0'+i))+" "+w+".")
		cur = e
	}
	top := cur.(*errors.Error)
	v.Assert(same(top.InnerMost(), root), "InnerMost: the first cause")
	text := cur.Error()
	at := 0
	for i := len(msgs) - 1; i >= 0; i-- {
		k := strings.Index(text[at:], msgs[i])
		v.Assert(k >= 0, "Error: every message, from the outside in")
		at += k + len(msgs[i])
	}
	switch root {
	case io.EOF, driver.ErrBadConn:
		v.Assert(strings.Contains(text[at:], root.Error()), "Error: the first cause")
	default:
		if _, ok := root.(messages.FailureMessage); !ok {
			want := "root"
			if c == nil {
				want = "root 7" + x
			}
			v.Assert(strings.Contains(text[at:], want), "Error: the first cause")
		}
	}
}

// C25_Same: 1..4 or 30 levels with the same message, arbitrary or empty, around a cause of the same text: each level is there.
func C25_Same() {
	msg := v.Str(v.Choose(3))
	v.Assume(!strings.Contains(msg, "%"))
	var root error = errors.New(msg)
	if v.Bool() {
		root = custom{msg}
	}
	n := 1 + v.Choose(5)
	if n == 5 {
		n = 30
	}
	cur := root
	for i := 0; i < n; i++ {
		e := errors.Wrap(cur, msg)
		v.Assert(same(e.Inner(), cur), "Inner: the wrapped error")
		v.Assert(same(e.InnerMost(), root), "InnerMost: the first cause")
		cur = e
	}
	for i := 0; i < n; i++ {
		cur = cur.(*errors.Error).Inner()
	}
	v.Assert(same(cur, root), "Inner: one error for each level")
}

// same compares errors by identity, failures by content.
func same(a, b error) bool {
	if f, ok := b.(messages.FailureMessage); ok {
		g, ok := a.(messages.FailureMessage)
		if !ok {
			return false
		}
		x, ok1 := f.Metadata["code"].(string)
		y, ok2 := g.Metadata["code"].(string)
		return ok1 && ok2 && x == y
	}
	return a == b
}

// lines keeps what is written, one line per write.
type lines struct{ l []string }

func (c *lines) Write(b []byte) (int, error) {
	c.l = append(c.l, string(b))
	return len(b), nil
}

// C26_Levels: for every level, set by an arbitrary string of up to 5 letters in any case, exactly the messages of that level and the more severe ones are written, each to its own log and with the text it was given.
func C26_Levels() {
	var e, i, t lines
	log.ErrorLog = stdlog.New(&e, "", 0)
	log.InfoLog = stdlog.New(&i, "", 0)
	log.TraceLog = stdlog.New(&t, "", 0)
	var name string
	want := 0
	switch v.Choose(5) {
	case 0:
		name, want = anyCase("error"), 1
	case 1:
		name, want = anyCase("info"), 2
	case 2:
		name, want = anyCase("trace"), 3
	case 3:
		b := v.Bytes(v.Concrete(v.Int(0, 5)))
		for k := range b {
			v.Assume(b[k] < 0x80)
		}
		name = string(b)
		l := strings.ToLower(name)
		v.Assume(l != "error" && l != "info" && l != "trace")
	case 4:
		name = "none"
	}
	log.SetLevel("trace")
	log.SetLevel(name)
	v.Assert(int(log.GetLevel()) == want, "SetLevel: the level")
	x := v.Str(2)
	v.Assume(x[1] != '\n')
	log.Error("a", x, 1)
	log.Errorf("a%s %d", x, 1)
	log.Info("b", x, true)
	log.Infof("b%s %v %%", x, nil)
	log.Trace(x, "c")
	log.Tracef("c%d %s", -5, x)
	written := func(l *lines, on bool, a, b, msg string) {
		if !on {
			v.Assert(len(l.l) == 0, msg)
			return
		}
		v.Assert(len(l.l) == 2, msg)
		v.AssertEqStr(l.l[0], a+"\n", msg)
		v.AssertEqStr(l.l[1], b+"\n", msg)
	}
	written(&e, want >= 1, "a "+x+" 1", "a"+x+" 1", "the error log")
	written(&i, want >= 2, "b "+x+" true", "b"+x+" <nil> %", "the info log")
	written(&t, want >= 3, x+" c", "c-5 "+x, "the trace log")
	log.SetLevel("")
}

// anyCase is s with arbitrary letters in upper case.
func anyCase(s string) string {
	b := []byte(s)
	for i := range b {
		if v.Bool() {
			b[i] -= 0x20
		}
	}
	return string(b)
}

// long is a text of n bytes, two of them arbitrary.
func long(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%19)
	}
	for _, i := range []int{n / 2, n - 1} {
		b[i] = v.U8()
		v.Assume(b[i] != '\n' && b[i] < 0x80)
	}
	return string(b)
}

var textSizes = []int{80, 127, 255, 256, 300, 511, 1000, 1024, 4096, 5000, 65535, 70000}

// C25_Long: errors whose messages are texts of up to 70000 bytes, formatted into the message or being it, on top of 1..3 other levels: the text holds them whole.
func C25_Long() {
	x := long(textSizes[v.Choose(len(textSizes))])
	var root error = custom{x}
	if v.Choose(2) == 1 {
		root = errors.New("%s", x)
	}
	e := errors.Wrap(root, "<%s|%d>", x, 7)
	cur := e
	for i := v.Choose(3); i > 0; i-- {
		cur = errors.Wrap(cur, "outer")
	}
	v.Assert(same(cur.InnerMost(), root), "InnerMost: the first cause")
	text := cur.Error()
	k := strings.Index(text, "<")
	v.Assert(k >= 0 && len(text) >= k+2*len(x)+4, "Error: every message")
	v.AssertEqStr(text[k:k+len(x)+4], "<"+x+"|7>", "Error: the message, whole")
	v.Assert(strings.Index(text[k+len(x)+4:], x[:20]) >= 0, "Error: the first cause")
}

// C26_Long: the same message, of up to 70000 bytes, logged 1..3 or 50 times: each is written, whole.
func C26_Long() {
	var l lines
	x := long(textSizes[v.Choose(len(textSizes))])
	n := []int{1, 2, 3, 50}[v.Choose(4)]
	log.ErrorLog = stdlog.New(&l, "", 0)
	log.InfoLog, log.TraceLog = log.ErrorLog, log.ErrorLog
	log.SetLevel("trace")
	kind := v.Choose(6)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			log.Error(x)
		case 1:
			log.Errorf("%s", x)
		case 2:
			log.Info(x)
		case 3:
			log.Infof("%s", x)
		case 4:
			log.Trace(x)
		case 5:
			log.Tracef("%s", x)
		}
	}
	v.Assert(len(l.l) == n, "every message is written")
	for _, y := range l.l {
		v.AssertEqStr(y, x+"\n", "a message, whole")
	}
}
