package enc

import (
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"

	"verifh/ref"
	"verifh/v"
)

// twins makes the same value of mutable parts twice.
func twins(k int, s string, i int) (interface{}, interface{}) {
	mk := func() interface{} {
		m := map[string]interface{}{"k" + s: s, "n": nil, "i": i}
		switch k {
		case 0:
			return []interface{}{s, i, []interface{}{s, []interface{}{i}}, m}
		case 1:
			return map[string]interface{}{s: m, "l": []interface{}{m, i}, "m": map[string]interface{}(nil)}
		case 2:
			return []interface{}{[]string{s, "b"}, []int{i, 2}, []byte(s)}
		case 3:
			return graph.Node{NodeIdentity: int64(i), Labels: []string{s, "B"}, Properties: map[string]interface{}{"a": s, "b": nil}}
		case 4:
			return &graph.Node{NodeIdentity: int64(i), Labels: []string{s, "B"}, Properties: map[string]interface{}{"a": s}}
		case 5:
			return graph.Path{
				Nodes:         []graph.Node{{NodeIdentity: int64(i), Labels: []string{s}, Properties: map[string]interface{}{s: s}}},
				Relationships: []graph.UnboundRelationship{{RelIdentity: int64(i), Type: s, Properties: map[string]interface{}{s: s}}},
				Sequence:      []int{i, 1, 2},
			}
		case 6:
			return graph.Relationship{RelIdentity: int64(i), StartNodeIdentity: 1, EndNodeIdentity: 2, Type: s, Properties: map[string]interface{}{s: s, "z": nil}}
		}
		return []byte(s)
	}
	return mk(), mk()
}

// C27_Encode: encoding a value of any kind, which succeeds, fails in its middle or at the writer, for several chunk sizes, leaves the value as it was; what Marshal returned is not changed by later calls, and changing it changes nothing else.
func C27_Encode() {
	a, b := twins(v.Choose(8), v.Str(2), int(v.I8()))
	given := []interface{}{a, "x", a}
	switch how := v.Choose(4); how {
	case 0:
		v.Assert(encoding.NewEncoder(&sink{}, uint16(v.Choose(3)*7)).Encode(given) == nil, "Encode: succeeds")
	case 1:
		v.Assert(encoding.NewEncoder(&sink{}, 65535).Encode(append(given, make(chan int))) != nil, "Encode: refuses")
	case 2:
		v.Assert(encoding.NewEncoder(&sink{left: v.Choose(4), fail: true}, 2).Encode(given) != nil, "Encode: fails")
	case 3:
		m, err := encoding.Marshal(given)
		v.Assert(err == nil, "Marshal: succeeds")
		keep := append([]byte{}, m...)
		m2, err := encoding.Marshal([]interface{}{"other", b})
		v.Assert(err == nil, "Marshal: succeeds")
		v.AssertEqBytes(m, keep, "Marshal: the bytes stay as they are")
		for i := range m2 {
			m2[i] = 0xEE
		}
		v.AssertEqBytes(m, keep, "Marshal: the bytes are the caller's own")
		m3, err := encoding.Marshal([]interface{}{"other", b})
		v.Assert(err == nil, "Marshal: succeeds")
		v.Assert(len(m3) == len(m2), "Marshal: the same again")
		_, err = encoding.Unmarshal(m3)
		v.Assert(err == nil, "Marshal: the same again")
	}
	v.Assert(len(given) == 3, "the list given")
	ref.Strict(given[1], "x", "the value given")
	ref.Strict(a, b, "the value given")
}

// C27_Decode: a decoded value of any kind does not change when the bytes it came from are overwritten or other values are decoded from the same or another stream; changing it changes no value decoded later; decoding does not change the bytes.
func C27_Decode() {
	k, s, i := v.Choose(7), v.Str(2), int(v.I8())
	g, _ := twins(k, s, i)
	b, err := encoding.Marshal(g)
	v.Assert(err == nil, "Marshal: succeeds")
	if v.Choose(2) == 0 { // in chunks
		p, _, ok := ref.Unframe(b)
		v.Assert(ok, "Marshal: one message")
		var c []byte
		for len(p) > 3 {
			c = append(c, 0, 3, p[0], p[1], p[2])
			p = p[3:]
		}
		b = append(append(append(c, 0, byte(len(p))), p...), 0, 0)
		if len(p) == 0 {
			b = append(c, 0, 0)
		}
	}
	keep := append([]byte{}, b...)
	x, err := encoding.Unmarshal(b)
	v.Assert(err == nil, "Unmarshal: succeeds")
	v.AssertEqBytes(b, keep, "Unmarshal: leaves the bytes alone")
	w, err := encoding.Unmarshal(append([]byte{}, b...))
	v.Assert(err == nil, "Unmarshal: succeeds")
	for j := range b {
		b[j] = 'z'
	}
	ref.Strict(x, w, "Unmarshal: the value does not depend on the bytes any more")

	d := encoding.NewDecoder(&source{data: append(append([]byte{}, keep...), keep...)})
	x, err = d.Decode()
	v.Assert(err == nil, "Decode: succeeds")
	y, err := d.Decode()
	v.Assert(err == nil, "Decode: succeeds")
	ref.Strict(x, w, "Decode: the value stays as it is")
	spoil(x)
	ref.Strict(y, w, "Decode: the values are independent")
	spoil(y)
	z, err := encoding.Unmarshal(keep)
	v.Assert(err == nil, "Unmarshal: succeeds")
	ref.Strict(z, w, "Unmarshal: independent of the values decoded before")
}

// C27_Parts: parts of one decoded value, of equal content, which may be empty, are independent of each other and of equal parts of values decoded before or later.
func C27_Parts() {
	s, i := v.Str(1), int(v.I8())
	e := map[string]interface{}{}
	if v.Choose(2) == 1 {
		e["k"] = s
	}
	l := []string{}
	if v.Choose(2) == 1 {
		l = append(l, s)
	}
	var part interface{}
	switch v.Choose(7) {
	case 0:
		part = e
	case 1:
		part = l
	case 2:
		part = graph.Node{NodeIdentity: int64(i), Labels: l, Properties: e}
	case 3:
		part = graph.Relationship{RelIdentity: int64(i), StartNodeIdentity: 1, EndNodeIdentity: 2, Type: s, Properties: e}
	case 4:
		part = graph.Path{Nodes: []graph.Node{{NodeIdentity: int64(i), Labels: l, Properties: e}, {NodeIdentity: int64(i), Labels: l, Properties: e}}, Sequence: []int{}}
	case 5:
		u := graph.UnboundRelationship{RelIdentity: int64(i), Type: s, Properties: e}
		part = graph.Path{Relationships: []graph.UnboundRelationship{u, u}, Sequence: []int{i, 1}}
	case 6:
		part = []interface{}{e, l, []interface{}{e}}
	}
	b, err := encoding.Marshal([]interface{}{part, part, map[string]interface{}{"a": part, "b": part}})
	v.Assert(err == nil, "Marshal: succeeds")
	dec := func() []interface{} {
		x, err := encoding.Unmarshal(b)
		v.Assert(err == nil, "Unmarshal: succeeds")
		y, ok := x.([]interface{})
		v.Assert(ok && len(y) == 3, "Unmarshal: the list")
		return y
	}
	w, x := dec(), dec()
	spoil(x[0])
	ref.Strict(x[1], w[1], "another part of the value")
	spoil(x[2].(map[string]interface{})["a"])
	ref.Strict(x[1], w[1], "another part of the value")
	ref.Strict(x[2].(map[string]interface{})["b"], w[1], "another part of the value")
	if p, ok := x[1].(graph.Path); ok && len(p.Nodes) == 2 {
		spoil(p.Nodes[0])
		ref.Strict(p.Nodes[1], w[1].(graph.Path).Nodes[1], "another part of the path")
	} else if ok {
		spoil(p.Relationships[0])
		ref.Strict(p.Relationships[1], w[1].(graph.Path).Relationships[1], "another part of the path")
	}
	ref.Strict(dec(), w, "a value decoded later")
}

// spoil changes whatever of x can be changed.
func spoil(x interface{}) {
	switch x := x.(type) {
	case []interface{}:
		for i := range x {
			spoil(x[i])
			x[i] = "spoiled"
		}
	case map[string]interface{}:
		for k, y := range x {
			spoil(y)
			x[k] = "spoiled"
		}
		x["more"] = 1
	case graph.Node:
		for i := range x.Labels {
			x.Labels[i] = "spoiled"
		}
		spoil(x.Properties)
	case graph.Relationship:
		spoil(x.Properties)
	case graph.UnboundRelationship:
		spoil(x.Properties)
	case graph.Path:
		for i := range x.Nodes {
			spoil(x.Nodes[i])
			x.Nodes[i] = graph.Node{}
		}
		for i := range x.Relationships {
			spoil(x.Relationships[i])
			x.Relationships[i] = graph.UnboundRelationship{}
		}
		for i := range x.Sequence {
			x.Sequence[i] = 77
		}
	}
}
