// Package ref is an independent reference for PackStream v1 and Bolt v1
// message framing, written from the format description and used as oracle.
package ref

import (
	"math"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"verifh/v"
)

func be16(b []byte, n int) []byte { return append(b, byte(n>>8), byte(n)) }
func be32(b []byte, n int) []byte {
	return append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
}

// Int appends the shortest encoding of x.
func Int(b []byte, x int64) []byte {
	u := uint64(x)
	switch {
	case x >= -16 && x <= 127:
		return append(b, byte(u))
	case x >= -128 && x <= 127:
		return append(b, 0xC8, byte(u))
	case x >= -32768 && x <= 32767:
		return append(b, 0xC9, byte(u>>8), byte(u))
	case x >= -2147483648 && x <= 2147483647:
		return append(b, 0xCA, byte(u>>24), byte(u>>16), byte(u>>8), byte(u))
	}
	return append(b, 0xCB, byte(u>>56), byte(u>>48), byte(u>>40), byte(u>>32), byte(u>>24), byte(u>>16), byte(u>>8), byte(u))
}

// Float appends a float64 given by its bits.
func Float(b []byte, u uint64) []byte {
	return append(b, 0xC1, byte(u>>56), byte(u>>48), byte(u>>40), byte(u>>32), byte(u>>24), byte(u>>16), byte(u>>8), byte(u))
}

// Head appends a collection header: tiny marker, then 8, 16 and 32 bit markers.
func Head(b []byte, n int, tiny, m8, m16, m32 byte) []byte {
	switch {
	case n <= 15:
		return append(b, tiny+byte(n))
	case n <= 255:
		return append(b, m8, byte(n))
	case n <= 65535:
		return be16(append(b, m16), n)
	}
	return be32(append(b, m32), n)
}

func Str(b []byte, s string) []byte {
	return append(Head(b, len(s), 0x80, 0xD0, 0xD1, 0xD2), s...)
}
func ListHead(b []byte, n int) []byte { return Head(b, n, 0x90, 0xD4, 0xD5, 0xD6) }
func MapHead(b []byte, n int) []byte  { return Head(b, n, 0xA0, 0xD8, 0xD9, 0xDA) }

// Enc appends the encoding of a normalised value (nil, bool, int64, float64,
// string, []interface{}, map with at most one entry, graph structures, server messages).
func Enc(b []byte, x interface{}) []byte {
	switch x := x.(type) {
	case nil:
		return append(b, 0xC0)
	case bool:
		if x {
			return append(b, 0xC3)
		}
		return append(b, 0xC2)
	case int:
		return Int(b, int64(x))
	case int64:
		return Int(b, x)
	case float64:
		return Float(b, math.Float64bits(x))
	case string:
		return Str(b, x)
	case []interface{}:
		b = ListHead(b, len(x))
		for _, e := range x {
			b = Enc(b, e)
		}
		return b
	case []string:
		b = ListHead(b, len(x))
		for _, e := range x {
			b = Str(b, e)
		}
		return b
	case []int:
		b = ListHead(b, len(x))
		for _, e := range x {
			b = Int(b, int64(e))
		}
		return b
	case map[string]interface{}:
		b = MapHead(b, len(x))
		for k, e := range x {
			b = Str(b, k)
			b = Enc(b, e)
		}
		return b
	case graph.Node:
		b = Int(append(b, 0xB3, 0x4E), x.NodeIdentity)
		b = Enc(b, x.Labels)
		return Enc(b, x.Properties)
	case graph.Relationship:
		b = Int(append(b, 0xB5, 0x52), x.RelIdentity)
		b = Int(b, x.StartNodeIdentity)
		b = Int(b, x.EndNodeIdentity)
		b = Str(b, x.Type)
		return Enc(b, x.Properties)
	case graph.UnboundRelationship:
		b = Int(append(b, 0xB3, 0x72), x.RelIdentity)
		b = Str(b, x.Type)
		return Enc(b, x.Properties)
	case graph.Path:
		b = ListHead(append(b, 0xB3, 0x50), len(x.Nodes))
		for _, n := range x.Nodes {
			b = Enc(b, n)
		}
		b = ListHead(b, len(x.Relationships))
		for _, r := range x.Relationships {
			b = Enc(b, r)
		}
		return Enc(b, x.Sequence)
	case messages.RecordMessage:
		return Enc(append(b, 0xB1, 0x71), x.Fields)
	case messages.SuccessMessage:
		return Enc(append(b, 0xB1, 0x70), x.Metadata)
	case messages.FailureMessage:
		return Enc(append(b, 0xB1, 0x7F), x.Metadata)
	case messages.IgnoredMessage:
		return append(b, 0xB0, 0x7E)
	}
	panic("ref.Enc: unsupported")
}

// Frame wraps one message in a single chunk (up to 65535 bytes each).
func Frame(p []byte) []byte {
	var b []byte
	for len(p) > 65535 {
		b = append(b, 0xff, 0xff)
		b = append(b, p[:65535]...)
		p = p[65535:]
	}
	if len(p) > 0 {
		b = append(be16(b, len(p)), p...)
	}
	return append(b, 0, 0)
}

// Unframe splits off the first message; ok is false if it is cut short.
func Unframe(b []byte) (payload, rest []byte, ok bool) {
	for {
		if len(b) < 2 {
			return nil, b, false
		}
		n := int(b[0])<<8 | int(b[1])
		b = b[2:]
		if n > len(b) {
			return nil, b, false
		}
		n = v.Concrete(n)
		if n == 0 {
			return payload, b, true
		}
		payload = append(payload, b[:n]...)
		b = b[n:]
	}
}

// Same asserts that got is what want denotes.
func Same(got, want interface{}, msg string) {
	switch w := want.(type) {
	case nil:
		v.Assert(got == nil, msg+": nil")
	case bool:
		g, ok := got.(bool)
		v.Assert(ok, msg+": bool type")
		v.Assert(g == w, msg+": bool value")
	case int64:
		g, ok := got.(int64)
		v.Assert(ok, msg+": int type")
		v.Assert(g == w, msg+": int value")
	case float64:
		g, ok := got.(float64)
		v.Assert(ok, msg+": float type")
		v.Assert(math.Float64bits(g) == math.Float64bits(w), msg+": float value")
	case string:
		g, ok := got.(string)
		v.Assert(ok, msg+": string type")
		v.AssertEqStr(g, w, msg+": string value")
	case []interface{}:
		g, ok := got.([]interface{})
		v.Assert(ok, msg+": list type")
		v.Assert(len(g) == len(w), msg+": list length")
		for i := range w {
			Same(g[i], w[i], msg)
		}
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		v.Assert(ok, msg+": map type")
		sameMap(g, w, msg)
	case graph.Node:
		g, ok := got.(graph.Node)
		v.Assert(ok, msg+": node type")
		v.Assert(g.NodeIdentity == w.NodeIdentity, msg+": node identity")
		sameStrs(g.Labels, w.Labels, msg+": node labels")
		sameMap(g.Properties, w.Properties, msg+": node properties")
	case graph.Relationship:
		g, ok := got.(graph.Relationship)
		v.Assert(ok, msg+": relationship type")
		v.Assert(g.RelIdentity == w.RelIdentity, msg+": relationship identity")
		v.Assert(g.StartNodeIdentity == w.StartNodeIdentity, msg+": relationship start")
		v.Assert(g.EndNodeIdentity == w.EndNodeIdentity, msg+": relationship end")
		v.AssertEqStr(g.Type, w.Type, msg+": relationship type name")
		sameMap(g.Properties, w.Properties, msg+": relationship properties")
	case graph.UnboundRelationship:
		g, ok := got.(graph.UnboundRelationship)
		v.Assert(ok, msg+": unbound relationship type")
		v.Assert(g.RelIdentity == w.RelIdentity, msg+": unbound relationship identity")
		v.AssertEqStr(g.Type, w.Type, msg+": unbound relationship type name")
		sameMap(g.Properties, w.Properties, msg+": unbound relationship properties")
	case graph.Path:
		g, ok := got.(graph.Path)
		v.Assert(ok, msg+": path type")
		v.Assert(len(g.Nodes) == len(w.Nodes), msg+": path nodes")
		for i := range w.Nodes {
			Same(g.Nodes[i], w.Nodes[i], msg+": path")
		}
		v.Assert(len(g.Relationships) == len(w.Relationships), msg+": path relationships")
		for i := range w.Relationships {
			Same(g.Relationships[i], w.Relationships[i], msg+": path")
		}
		v.Assert(len(g.Sequence) == len(w.Sequence), msg+": path sequence length")
		for i := range w.Sequence {
			v.Assert(g.Sequence[i] == w.Sequence[i], msg+": path sequence")
		}
	case messages.RecordMessage:
		g, ok := got.(messages.RecordMessage)
		v.Assert(ok, msg+": RECORD")
		Same(g.Fields, w.Fields, msg+": RECORD")
	case messages.SuccessMessage:
		g, ok := got.(messages.SuccessMessage)
		v.Assert(ok, msg+": SUCCESS")
		sameMap(g.Metadata, w.Metadata, msg+": SUCCESS")
	case messages.FailureMessage:
		g, ok := got.(messages.FailureMessage)
		v.Assert(ok, msg+": FAILURE")
		sameMap(g.Metadata, w.Metadata, msg+": FAILURE")
	case messages.IgnoredMessage:
		_, ok := got.(messages.IgnoredMessage)
		v.Assert(ok, msg+": IGNORED")
	case messages.AckFailureMessage:
		_, ok := got.(messages.AckFailureMessage)
		v.Assert(ok, msg+": ACK_FAILURE")
	case messages.DiscardAllMessage:
		_, ok := got.(messages.DiscardAllMessage)
		v.Assert(ok, msg+": DISCARD_ALL")
	case messages.PullAllMessage:
		_, ok := got.(messages.PullAllMessage)
		v.Assert(ok, msg+": PULL_ALL")
	case messages.ResetMessage:
		_, ok := got.(messages.ResetMessage)
		v.Assert(ok, msg+": RESET")
	default:
		panic("ref.Same: unsupported")
	}
}

func sameStrs(g, w []string, msg string) {
	v.Assert(len(g) == len(w), msg+" length")
	for i := range w {
		v.AssertEqStr(g[i], w[i], msg)
	}
}

func sameMap(g, w map[string]interface{}, msg string) {
	v.Assert(len(g) == len(w), msg+": map size")
	for k, x := range w {
		y, ok := g[k]
		v.Assert(ok, msg+": map key")
		Same(y, x, msg)
	}
}

// ---- reference decoder ----

type rd struct {
	b   []byte
	pos int
	odd bool // a message where a value is expected: outside the format
}

// Dec decodes exactly one value from b.  odd marks inputs on which an
// implementation may also answer with an error.
func Dec(b []byte) (val interface{}, ok bool, odd bool) {
	r := &rd{b: b}
	val, ok = r.val(0)
	if !ok {
		return nil, false, r.odd
	}
	if r.pos != len(b) {
		return nil, false, r.odd
	}
	return val, true, r.odd
}

func (r *rd) left() int { return len(r.b) - r.pos }

func (r *rd) uint(n int) (uint64, bool) {
	if r.left() < n {
		return 0, false
	}
	var x uint64
	for i := 0; i < n; i++ {
		x = x<<8 | uint64(r.b[r.pos+i])
	}
	r.pos += n
	return x, true
}

func (r *rd) size(n int) (int, bool) {
	x, ok := r.uint(n)
	if !ok {
		return 0, false
	}
	// every item takes at least one byte: larger sizes cannot be complete
	if x > uint64(r.left()) {
		return 0, false
	}
	return v.Concrete(int(x)), true
}

func (r *rd) str(n int, ok bool) (interface{}, bool) {
	if !ok || r.left() < n {
		return nil, false
	}
	s := string(r.b[r.pos : r.pos+n])
	r.pos += n
	return s, true
}

func (r *rd) list(n int, ok bool, d int) (interface{}, bool) {
	if !ok || r.left() < n {
		return nil, false
	}
	l := make([]interface{}, 0, n)
	for i := 0; i < n; i++ {
		x, ok := r.val(d + 1)
		if !ok {
			return nil, false
		}
		l = append(l, x)
	}
	return l, true
}

func (r *rd) dict(n int, ok bool, d int) (interface{}, bool) {
	if !ok || r.left() < 2*n {
		return nil, false
	}
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k, ok := r.val(d + 1)
		if !ok {
			return nil, false
		}
		x, ok := r.val(d + 1)
		if !ok {
			return nil, false
		}
		s, ok := k.(string)
		if !ok {
			return nil, false
		}
		// the format has no repeated keys: the last entry counts, or an error
		if _, dup := m[s]; dup {
			r.odd = true
		}
		m[s] = x
	}
	return m, true
}

func (r *rd) val(d int) (interface{}, bool) {
	if r.left() < 1 {
		return nil, false
	}
	m := r.b[r.pos]
	r.pos++
	switch {
	case m <= 0x7F || m >= 0xF0:
		return int64(int8(m)), true
	case m < 0x90:
		return r.str(v.Concrete(int(m&15)), true)
	case m < 0xA0:
		return r.list(v.Concrete(int(m&15)), true, d)
	case m < 0xB0:
		return r.dict(v.Concrete(int(m&15)), true, d)
	case m < 0xC0:
		return r.strct(v.Concrete(int(m&15)), true, d)
	}
	switch m {
	case 0xC0:
		return nil, true
	case 0xC1:
		x, ok := r.uint(8)
		return math.Float64frombits(x), ok
	case 0xC2:
		return false, true
	case 0xC3:
		return true, true
	case 0xC8:
		x, ok := r.uint(1)
		return int64(int8(x)), ok
	case 0xC9:
		x, ok := r.uint(2)
		return int64(int16(x)), ok
	case 0xCA:
		x, ok := r.uint(4)
		return int64(int32(x)), ok
	case 0xCB:
		x, ok := r.uint(8)
		return int64(x), ok
	case 0xD0:
		n, ok := r.size(1)
		return r.str(n, ok)
	case 0xD1:
		n, ok := r.size(2)
		return r.str(n, ok)
	case 0xD2:
		n, ok := r.size(4)
		return r.str(n, ok)
	case 0xD4:
		n, ok := r.size(1)
		return r.list(n, ok, d)
	case 0xD5:
		n, ok := r.size(2)
		return r.list(n, ok, d)
	case 0xD6:
		n, ok := r.size(4)
		return r.list(n, ok, d)
	case 0xD8:
		n, ok := r.size(1)
		return r.dict(n, ok, d)
	case 0xD9:
		n, ok := r.size(2)
		return r.dict(n, ok, d)
	case 0xDA:
		n, ok := r.size(4)
		return r.dict(n, ok, d)
	case 0xDC:
		n, ok := r.uint(1)
		return r.strct(int(n), ok, d)
	case 0xDD:
		n, ok := r.uint(2)
		return r.strct(int(n), ok, d)
	}
	return nil, false
}

func (r *rd) strct(n int, ok bool, d int) (interface{}, bool) {
	if !ok || r.left() < 1 {
		return nil, false
	}
	sig := r.b[r.pos]
	r.pos++
	count := func(k int) bool { return n == k }
	switch sig {
	case 0x4E:
		if !count(3) {
			return nil, false
		}
		id, ok1 := r.int(d)
		ls, ok2 := r.strs(d, ok1)
		ps, ok3 := r.props(d, ok2)
		if !ok3 {
			return nil, false
		}
		return graph.Node{NodeIdentity: id, Labels: ls, Properties: ps}, true
	case 0x52:
		if !count(5) {
			return nil, false
		}
		id, ok1 := r.int(d)
		if !ok1 {
			return nil, false
		}
		a, ok1 := r.int(d)
		if !ok1 {
			return nil, false
		}
		b, ok1 := r.int(d)
		if !ok1 {
			return nil, false
		}
		t, ok2 := r.string(d)
		ps, ok3 := r.props(d, ok2)
		if !ok3 {
			return nil, false
		}
		return graph.Relationship{RelIdentity: id, StartNodeIdentity: a, EndNodeIdentity: b, Type: t, Properties: ps}, true
	case 0x72:
		if !count(3) {
			return nil, false
		}
		id, ok1 := r.int(d)
		if !ok1 {
			return nil, false
		}
		t, ok2 := r.string(d)
		ps, ok3 := r.props(d, ok2)
		if !ok3 {
			return nil, false
		}
		return graph.UnboundRelationship{RelIdentity: id, Type: t, Properties: ps}, true
	case 0x50:
		if !count(3) {
			return nil, false
		}
		p := graph.Path{}
		ns, ok := r.anyList(d)
		if !ok {
			return nil, false
		}
		for _, x := range ns {
			n, ok := x.(graph.Node)
			if !ok {
				return nil, false
			}
			p.Nodes = append(p.Nodes, n)
		}
		rs, ok := r.anyList(d)
		if !ok {
			return nil, false
		}
		for _, x := range rs {
			n, ok := x.(graph.UnboundRelationship)
			if !ok {
				return nil, false
			}
			p.Relationships = append(p.Relationships, n)
		}
		ss, ok := r.anyList(d)
		if !ok {
			return nil, false
		}
		for _, x := range ss {
			n, ok := x.(int64)
			if !ok {
				return nil, false
			}
			p.Sequence = append(p.Sequence, int(n))
		}
		return p, true
	}
	if d > 0 {
		r.odd = true
	}
	switch sig {
	case 0x71:
		if !count(1) {
			return nil, false
		}
		l, ok := r.anyList(d)
		return messages.NewRecordMessage(l), ok
	case 0x70:
		if !count(1) {
			return nil, false
		}
		m, ok := r.props(d, true)
		return messages.NewSuccessMessage(m), ok
	case 0x7F:
		if !count(1) {
			return nil, false
		}
		m, ok := r.props(d, true)
		return messages.NewFailureMessage(m), ok
	case 0x7E:
		if n > 0 {
			r.odd = true
		}
		if n > r.left() {
			return nil, false
		}
		for i := 0; i < n; i++ {
			if _, ok := r.val(d + 1); !ok {
				return nil, false
			}
		}
		return messages.NewIgnoredMessage(), true
	}
	// client messages: a client need not decode them
	r.odd = true
	switch sig {
	case 0x0E:
		return messages.NewAckFailureMessage(), count(0)
	case 0x2F:
		return messages.NewDiscardAllMessage(), count(0)
	case 0x3F:
		return messages.NewPullAllMessage(), count(0)
	case 0x0F:
		return messages.NewResetMessage(), count(0)
	}
	return nil, false
}

func (r *rd) int(d int) (int64, bool) {
	x, ok := r.val(d + 1)
	if !ok {
		return 0, false
	}
	i, ok := x.(int64)
	return i, ok
}
func (r *rd) string(d int) (string, bool) {
	x, ok := r.val(d + 1)
	if !ok {
		return "", false
	}
	i, ok := x.(string)
	return i, ok
}
func (r *rd) anyList(d int) ([]interface{}, bool) {
	x, ok := r.val(d + 1)
	if !ok {
		return nil, false
	}
	i, ok := x.([]interface{})
	return i, ok
}
func (r *rd) strs(d int, ok bool) ([]string, bool) {
	if !ok {
		return nil, false
	}
	l, ok := r.anyList(d)
	if !ok {
		return nil, false
	}
	var out []string
	for _, x := range l {
		s, ok := x.(string)
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}
func (r *rd) props(d int, ok bool) (map[string]interface{}, bool) {
	if !ok {
		return nil, false
	}
	x, ok := r.val(d + 1)
	if !ok {
		return nil, false
	}
	m, ok := x.(map[string]interface{})
	return m, ok
}

// Fields decodes exactly n values.
func Fields(b []byte, n int) ([]interface{}, bool) {
	r := &rd{b: b}
	var out []interface{}
	for i := 0; i < n; i++ {
		x, ok := r.val(1)
		if !ok {
			return nil, false
		}
		out = append(out, x)
	}
	return out, r.pos == len(b)
}
