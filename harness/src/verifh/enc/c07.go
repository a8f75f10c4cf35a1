package enc

import (
	"math"
	"time"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"verifh/ref"
	"verifh/v"
)

type plain struct{ A int }

// bad is a value with no PackStream representation.
func bad() interface{} {
	switch v.Choose(21) {
	case 16:
		return (*int)(nil)
	case 17:
		return (func())(nil)
	case 18:
		return (chan int)(nil)
	case 19:
		return (map[int]int)(nil)
	case 0:
		x := v.U64()
		v.Assume(x > math.MaxInt64)
		return x
	case 1:
		return plain{int(v.I8())}
	case 2:
		return make(chan int)
	case 3:
		return func() {}
	case 4:
		return map[int]interface{}{1: 2}
	case 5:
		return complex(1, 2)
	case 6:
		return uintptr(v.U8())
	case 7:
		x := 1
		return &x
	case 8:
		return map[interface{}]interface{}{"a": 1}
	case 9:
		return (*graph.Node)(nil)
	case 10:
		return (*messages.RunMessage)(nil)
	case 11:
		return time.Time{}
	case 12:
		return errWire
	case 13:
		return fat{65536}
	case 14:
		return []chan int{nil}
	case 15:
		return &plain{1}
	}
	return struct{}{}
}

// only is a structure with one field.
type only struct{ x interface{} }

func (o only) Signature() int           { return 0x44 }
func (o only) AllFields() []interface{} { return []interface{}{o.x} }

// wrap puts x somewhere inside a larger value.
func wrap(x interface{}) interface{} {
	s := v.Str(3 * v.Choose(2))
	switch v.Choose(16) {
	case 0:
		return x
	case 8:
		return messages.NewSuccessMessage(map[string]interface{}{"p": x})
	case 9:
		return messages.NewRecordMessage([]interface{}{s, x})
	case 10:
		return messages.NewFailureMessage(map[string]interface{}{"p": x})
	case 11:
		return graph.Relationship{Type: s, Properties: map[string]interface{}{"p": x}}
	case 12:
		return graph.Path{Relationships: []graph.UnboundRelationship{{Type: s, Properties: map[string]interface{}{"p": x}}}}
	case 13:
		return &graph.UnboundRelationship{Type: s, Properties: map[string]interface{}{"p": x}}
	case 14:
		return only{x}
	case 15:
		return []only{{x}, {s}}
	case 1:
		return []interface{}{s, x, s}
	case 2:
		return map[string]interface{}{s: x}
	case 3:
		return []interface{}{[]interface{}{s, []interface{}{x}}}
	case 4:
		return messages.NewRunMessage(s, map[string]interface{}{"p": x})
	case 5:
		return graph.Node{NodeIdentity: 1, Labels: []string{s}, Properties: map[string]interface{}{"p": x}}
	case 6:
		return graph.Path{Nodes: []graph.Node{{Properties: map[string]interface{}{"p": x}}}}
	case 7:
		return []map[string]interface{}{{"p": x}}
	}
	return messages.NewRunMessage(s, map[string]interface{}{"p": []interface{}{s, map[string]interface{}{"q": x}}})
}

// C07_Rejected: a value with no representation, alone or inside lists, maps, graph structures and RUN messages, with every chunk size 0..6 and 65535: an error, not a byte written, and the encoder still encodes the next value correctly.
func C07_Rejected() {
	w := &sink{}
	cs := uint16(65535)
	if v.Bool() {
		cs = uint16(v.Concrete(v.Int(0, 6)))
	}
	e := encoding.NewEncoder(w, cs)
	err := e.Encode(wrap(bad()))
	v.Assert(err != nil, "a value that cannot be represented was accepted")
	v.Assert(w.Len() == 0, "part of a rejected message reached the wire")
	n := int64(v.U8() & 0x7F)
	v.Assert(e.Encode([]interface{}{n, "after"}) == nil, "the encoder is usable after a rejected value")
	frames(w.Bytes(), ref.Enc(nil, []interface{}{n, "after"}))
}

type myInt int
type myStr string

// C07_Cyclic: a value that contains itself, through lists, maps, graph structures or pointers to them, and stands alone or inside RUN parameters: an error, not a byte written, and the encoder still encodes the next value correctly.
func C07_Cyclic() {
	s := v.Str(1)
	m := map[string]interface{}{}
	l := make([]interface{}, 2)
	l[0] = s
	switch v.Choose(6) {
	case 0:
		m[s] = m
	case 1:
		l[1], m[s] = l, l
	case 2:
		l[1], m[s] = m, l
	case 3:
		m[s] = graph.Node{NodeIdentity: 1, Labels: []string{s}, Properties: m}
	case 4:
		m[s] = []map[string]interface{}{m, m}
	case 5:
		m[s] = &graph.UnboundRelationship{Type: s, Properties: m}
	}
	var x interface{} = m
	if v.Bool() {
		x = messages.NewRunMessage(s, map[string]interface{}{"p": m})
	}
	v.StackLimit(200000)
	w := &sink{}
	e := encoding.NewEncoder(w, uint16(v.Choose(2)*65535))
	v.Assert(e.Encode(x) != nil, "a value that cannot be represented was accepted")
	v.Assert(w.Len() == 0, "part of a rejected message reached the wire")
	v.Assert(e.Encode([]interface{}{s, "after"}) == nil, "the encoder is usable after a rejected value")
	frames(w.Bytes(), ref.Enc(nil, []interface{}{s, "after"}))
}

// C07_Kinds: values of Go types the documentation leaves open (named scalars, arrays, maps and pointers of other types) are rejected or encoded as what they denote.
func C07_Kinds() {
	var g, w interface{}
	x, s := v.I64(), v.Str(1)
	switch v.Choose(7) {
	case 0:
		g, w = myInt(x), x
	case 1:
		g, w = myStr(s), s
	case 2:
		g, w = [2]int64{x, 1}, []interface{}{x, int64(1)}
	case 3:
		g, w = map[string]string{"k": s}, map[string]interface{}{"k": s}
	case 4:
		g, w = map[string]int64{"k": x}, map[string]interface{}{"k": x}
	case 5:
		g, w = &s, s
	case 6:
		g, w = map[myStr]interface{}{"k": s}, map[string]interface{}{"k": s}
	}
	b := &sink{}
	err := encoding.NewEncoder(b, 65535).Encode(g)
	if err != nil {
		v.Assert(b.Len() == 0, "part of a rejected message reached the wire")
		return
	}
	frames(b.Bytes(), ref.Enc(nil, w))
}

// C07_Late: a value with no representation behind 1..400 arbitrary items and 70000 bytes of string, in lists, maps and RUN parameters: an error and not a byte written.
func C07_Late() {
	w := &sink{}
	cs := []uint16{0, 1, 255, 256, 65535}[v.Choose(5)]
	e := encoding.NewEncoder(w, cs)
	n := []int{1, 14, 15, 16, 255, 256, 400}[v.Choose(7)]
	var x interface{} = plain{1}
	if v.Bool() {
		u := v.U64()
		v.Assume(u > math.MaxInt64)
		x = u
	}
	l := make([]interface{}, n)
	for i := range l {
		l[i] = v.Str(1)
	}
	if n == 400 {
		l[0] = v.Str(70000)
	}
	l = append(l, x)
	if v.Bool() {
		l = append(l, int64(1))
	}
	var y interface{} = l
	switch v.Choose(4) {
	case 1:
		y = map[string]interface{}{"p": l}
	case 2:
		y = messages.NewRunMessage("q", map[string]interface{}{"p": l})
	case 3:
		m := map[string]interface{}{}
		for i := range l {
			m[key(i)] = l[i]
		}
		y = m
	}
	v.Assert(e.Encode(y) != nil, "a value that cannot be represented was accepted")
	v.Assert(w.Len() == 0, "part of a rejected message reached the wire")
	v.Assert(e.Encode("after") == nil, "the encoder is usable after a rejected value")
	frames(w.Bytes(), ref.Enc(nil, "after"))
}

// C07_Marshal: Marshal rejects the same values.
func C07_Marshal() {
	_, err := encoding.Marshal(wrap(bad()))
	v.Assert(err != nil, "a value that cannot be represented was accepted")
}

// C07_Uint: a uint above MaxInt64 is rejected like a uint64.
func C07_Uint() {
	x := v.U64()
	v.Assume(x > math.MaxInt64)
	_, err := encoding.Marshal(uint(x))
	v.Assert(err != nil, "a uint above MaxInt64 was accepted")
}

// C07_WriteError: a writer that fails after any number of bytes: Encode reports an error.
func C07_WriteError() {
	cs := uint16(65535)
	if v.Bool() {
		cs = uint16(v.Concrete(v.Int(1, 6)))
	}
	_, val := value(1)
	n := len(ref.Enc(nil, val)) + 4
	w := &sink{fail: true, left: v.Concrete(v.Int(0, n-1))}
	err := encoding.NewEncoder(w, cs).Encode(val)
	v.Assert(err != nil, "a failed write was not reported")
}
