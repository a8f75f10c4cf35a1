// Package enc holds the harnesses for the PackStream codec and its framing.
package enc

import (
	"bytes"
	"errors"
	"io"
	"math"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"

	"verifh/ref"
	"verifh/v"
)

var errWire = errors.New("wire error")

// scalar is an arbitrary scalar: the Go value and what it denotes.
func scalar() (interface{}, interface{}) {
	switch v.Choose(5) {
	case 0:
		return nil, nil
	case 1:
		b := v.Bool()
		return b, b
	case 2:
		x := v.I64()
		return x, x
	case 3:
		f := math.Float64frombits(v.U64())
		return f, f
	}
	s := v.Str(v.Concrete(v.Int(0, 2)))
	return s, s
}

// integer is an arbitrary integer of every Go integer type.
func integer() (interface{}, int64) {
	switch v.Choose(10) {
	case 0:
		x := int(v.I64())
		return x, int64(x)
	case 1:
		x := v.I8()
		return x, int64(x)
	case 2:
		x := v.I16()
		return x, int64(x)
	case 3:
		x := v.I32()
		return x, int64(x)
	case 4:
		x := v.I64()
		return x, x
	case 5:
		x := v.U64()
		v.Assume(x <= math.MaxInt64)
		return uint(x), int64(x)
	case 6:
		x := v.U8()
		return x, int64(x)
	case 7:
		x := v.U16()
		return x, int64(x)
	case 8:
		x := v.U32()
		return x, int64(x)
	}
	x := v.U64()
	v.Assume(x <= math.MaxInt64)
	return x, int64(x)
}

// tiny is an arbitrary integer with a one byte encoding.
func tiny() int64 {
	x := v.I8()
	v.Assume(x >= -16)
	return int64(x)
}

// leaf is a scalar with few encodings.
func leaf() interface{} {
	switch v.Choose(4) {
	case 0:
		return nil
	case 1:
		return v.Bool()
	case 2:
		return v.I64()
	}
	return v.Str(1)
}

func props() map[string]interface{} {
	m := map[string]interface{}{}
	if v.Bool() {
		m[v.Str(1)] = leaf()
	}
	return m
}

// value is an arbitrary value nested up to depth d, width up to 2.
func value(d int) (interface{}, interface{}) {
	n := 7
	if d == 0 {
		n = 1
	}
	switch v.Choose(n) {
	case 0:
		return scalar()
	case 1:
		n := v.Concrete(v.Int(0, 2))
		var g, w []interface{}
		g, w = []interface{}{}, []interface{}{}
		for i := 0; i < n; i++ {
			a, b := value(d - 1)
			g, w = append(g, a), append(w, b)
		}
		return g, w
	case 2:
		g, w := map[string]interface{}{}, map[string]interface{}{}
		if v.Bool() {
			k := v.Str(v.Concrete(v.Int(0, 2)))
			a, b := value(d - 1)
			g[k], w[k] = a, b
		}
		return g, w
	case 3:
		n := node()
		return n, n
	case 4:
		r := graph.Relationship{RelIdentity: tiny(), StartNodeIdentity: int64(v.I16()), EndNodeIdentity: tiny(), Type: v.Str(1), Properties: props()}
		return r, r
	case 5:
		r := unbound()
		return r, r
	}
	p := path()
	return p, p
}

func node() graph.Node {
	n := graph.Node{NodeIdentity: int64(v.I16()), Labels: []string{}, Properties: props()}
	for i := v.Concrete(v.Int(0, 2)); i > 0; i-- {
		n.Labels = append(n.Labels, v.Str(1))
	}
	return n
}

func unbound() graph.UnboundRelationship {
	return graph.UnboundRelationship{RelIdentity: int64(v.I16()), Type: v.Str(1), Properties: props()}
}

func path() graph.Path {
	p := graph.Path{}
	k := v.Concrete(v.Int(0, 2))
	for i := 0; i < k; i++ {
		p.Nodes = append(p.Nodes, graph.Node{NodeIdentity: tiny(), Labels: []string{v.Str(1)}, Properties: map[string]interface{}{"a": tiny()}})
	}
	for i := 1; i < k; i++ {
		p.Relationships = append(p.Relationships, graph.UnboundRelationship{RelIdentity: tiny(), Type: v.Str(1), Properties: map[string]interface{}{}})
		p.Sequence = append(p.Sequence, int(v.I64()), int(tiny()))
	}
	return p
}

// roundTrip encodes and decodes.
func roundTrip(g, w interface{}) {
	b, err := encoding.Marshal(g)
	v.Assert(err == nil, "Marshal accepts the value")
	got, err := encoding.Unmarshal(b)
	v.Assert(err == nil, "Unmarshal accepts what Marshal wrote")
	ref.Same(got, w, "the decoded value")
}

// wire checks the bytes written for g against the reference encoding of w.
func wire(g, w interface{}) {
	b, err := encoding.Marshal(g)
	v.Assert(err == nil, "Marshal accepts the value")
	p, rest, ok := ref.Unframe(b)
	v.Assert(ok, "one complete message")
	v.Assert(len(rest) == 0, "nothing after the message")
	v.AssertEqBytes(p, ref.Enc(nil, w), "wire bytes")
}

// source is a reader that hands out data in arbitrary pieces.
type source struct {
	data  []byte
	pos   int
	mode  int // 0 whole, 1 arbitrary pieces, 2 arbitrary pieces with zero reads
	eof   bool
	err   error
	forks int
	zeros int
}

func (s *source) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	left := len(s.data) - s.pos
	if left == 0 {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := len(b)
	if n > left {
		n = left
	}
	if s.mode > 0 && s.forks > 0 {
		s.forks--
		lo := 1
		if s.mode == 2 && s.zeros > 0 {
			lo = 0
		}
		if n > lo {
			n = v.Concrete(v.Int(lo, n))
		}
		if n == 0 {
			s.zeros--
		}
	}
	copy(b, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.eof && s.pos == len(s.data) && v.Bool() {
		if s.err != nil {
			return n, s.err
		}
		return n, io.EOF
	}
	return n, nil
}

// sink is a writer that fails after ok bytes when failing.
type sink struct {
	bytes.Buffer
	fail  bool
	left  int
	calls int
}

func (s *sink) Write(b []byte) (int, error) {
	s.calls++
	if s.fail {
		if len(b) > s.left {
			n := s.left
			s.Buffer.Write(b[:n])
			s.left = 0
			return n, errWire
		}
		s.left -= len(b)
	}
	return s.Buffer.Write(b)
}
