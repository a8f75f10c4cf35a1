package enc

import (
	"bytes"
	"math"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"verifh/ref"
	"verifh/v"
)

func chunkSize() uint16 {
	if v.Bool() {
		return uint16(v.Concrete(v.Int(0, 40)))
	}
	return uint16(65535 - v.Concrete(v.Int(0, 3)))
}

func chunked(w interface{}, cs uint16) {
	b := &bytes.Buffer{}
	err := encoding.NewEncoder(b, cs).Encode(w)
	v.Assert(err == nil, "Encode accepts the value")
	got, err := encoding.NewDecoder(b).Decode()
	v.Assert(err == nil, "Decode accepts what Encode wrote")
	ref.Same(got, w, "the decoded value")
	v.Assert(b.Len() == 0, "nothing left on the wire")
}

// C02_Ints: every integer has the shortest marker and big-endian two's complement bytes.
func C02_Ints() {
	g, w := integer()
	wire(g, w)
}

// C02_Scalars: null, booleans and every float64 bit pattern.
func C02_Scalars() {
	switch v.Choose(3) {
	case 0:
		f := math.Float64frombits(v.U64())
		wire(f, f)
	case 1:
		b := v.Bool()
		wire(b, b)
	case 2:
		wire(nil, nil)
	}
}

// C02_Strings: size markers for every string length 0..300 and around the 16-bit and chunk boundaries, arbitrary contents.
func C02_Strings() {
	n := 0
	if v.Bool() {
		n = v.Concrete(v.Int(0, 300))
	} else {
		n = bigSizes[v.Choose(len(bigSizes))]
	}
	s := v.Str(n)
	wire(s, s)
}

// C02_Lists: list size markers at every boundary up to 1000 items (thorough: 65537), with an arbitrary item of any kind at the first, last, middle and boundary positions.
func C02_Lists() {
	n := sizes(listSizes, listSizesBig)
	w := list(n)
	wire(w, w)
}

// C02_OtherSlices: slices of every integer width, of structures and pointers to them, of slices, named slice types, and nil slices and maps.
func C02_OtherSlices() {
	g, w := others()
	wire(g, w)
}

// C02_BigGraph: paths of up to 40 nodes, nodes with up to 300 labels, type names of up to 300 bytes.
func C02_BigGraph() {
	n := []int{2, 15, 16, 17, 128, 255, 256, 300}[v.Choose(8)]
	switch v.Choose(3) {
	case 0:
		p := bigPath(n)
		wire(p, p)
	case 1:
		g := graph.Node{NodeIdentity: v.I64(), Properties: map[string]interface{}{v.Str(n): v.I64()}}
		for i := 0; i < n; i++ {
			g.Labels = append(g.Labels, "l")
		}
		g.Labels[n/2] = v.Str(2)
		wire(g, g)
	case 2:
		g := graph.Relationship{RelIdentity: tiny(), StartNodeIdentity: v.I64(), EndNodeIdentity: tiny(), Type: v.Str(n), Properties: map[string]interface{}{"k": v.Str(n)}}
		wire(g, g)
	}
}

// C02_ListBig: lists of 32768, 65535 and 65536 items.
func C02_ListBig() {
	n := []int{32768, 65535, 65536}[v.Choose(3)]
	x := v.Bool()
	w := make([]interface{}, n)
	for i := range w {
		w[i] = x
	}
	wire(w, w)
}

// C02_Maps: map size markers for 0..300 entries at every boundary; the entries are checked with the reference decoder.
func C02_Maps() {
	n := sizes([]int{0, 1, 2, 14, 15, 16, 17, 127, 128, 255, 256, 257, 300}, []int{1000})
	mapWire(dict(n))
}

// C02_MapBig: maps of 32767, 32768, 65535 and 65536 entries.
func C02_MapBig() {
	n := []int{32767, 32768, 65535, 65536}[v.Choose(4)]
	w := map[string]interface{}{}
	for i := 0; i < n; i++ {
		w[key(i)] = int64(i & 63)
	}
	w[key(n/2)] = v.Bool()
	mapWire(w)
}

func mapWire(m map[string]interface{}) {
	n := len(m)
	b, err := encoding.Marshal(m)
	v.Assert(err == nil, "Marshal accepts the value")
	p, rest, ok := ref.Unframe(b)
	v.Assert(ok, "one complete message")
	v.Assert(len(rest) == 0, "nothing after the message")
	h := ref.MapHead(nil, n)
	v.Assert(len(p) >= len(h), "map header present")
	v.AssertEqBytes(p[:len(h)], h, "map header")
	got, ok, _ := ref.Dec(p)
	v.Assert(ok, "well-formed map")
	ref.Same(got, m, "map entries")
}

// C02_Nested: arbitrary values nested two deep (thorough: three), width up to 2.
func C02_Nested() {
	g, w := value(1 + v.Tier())
	if v.Bool() {
		wire(g, w)
	} else {
		wire([]interface{}{g, int64(7)}, []interface{}{w, int64(7)})
	}
}

// C02_Messages: the request messages as structures with their signatures and fields, arbitrary strings and parameters.
func C02_Messages() {
	s := v.Str(v.Concrete(v.Int(0, 17)))
	switch v.Choose(6) {
	case 0:
		u, p := v.Str(v.Concrete(v.Int(0, 2))), v.Str(v.Concrete(v.Int(0, 2)))
		want := ref.Str([]byte{0xB2, 0x01}, s)
		// the token is a map: either order of the keys, and absent credentials stay empty strings
		b, err := encoding.Marshal(messages.NewInitMessage(s, u, p))
		v.Assert(err == nil, "INIT encodes")
		pl, rest, ok := ref.Unframe(b)
		v.Assert(ok && len(rest) == 0, "one complete message")
		v.Assert(len(pl) > len(want), "INIT has a token")
		v.AssertEqBytes(pl[:len(want)], want, "INIT client name")
		tok, ok, _ := ref.Dec(pl[len(want):])
		v.Assert(ok, "INIT token well-formed")
		m, ok := tok.(map[string]interface{})
		v.Assert(ok, "INIT token is a map")
		if u == "" {
			ref.Same(m, map[string]interface{}{"scheme": "none"}, "INIT token without a user")
		} else {
			v.Assert(len(m) == 3, "INIT token has three entries")
			ref.Same(m["scheme"], "basic", "INIT scheme")
			ref.Same(m["principal"], u, "INIT principal")
			ref.Same(m["credentials"], p, "INIT credentials")
		}
	case 1:
		m := map[string]interface{}{}
		if v.Bool() {
			_, x := scalar()
			m[v.Str(1)] = x
		}
		wireMsg(messages.NewRunMessage(s, m), ref.Enc(ref.Str([]byte{0xB2, 0x10}, s), m))
	case 2:
		wireMsg(messages.NewPullAllMessage(), []byte{0xB0, 0x3F})
	case 3:
		wireMsg(messages.NewDiscardAllMessage(), []byte{0xB0, 0x2F})
	case 4:
		wireMsg(messages.NewAckFailureMessage(), []byte{0xB0, 0x0E})
	case 5:
		wireMsg(messages.NewResetMessage(), []byte{0xB0, 0x0F})
	}
}

func wireMsg(m interface{}, want []byte) {
	b, err := encoding.Marshal(m)
	v.Assert(err == nil, "message encodes")
	p, rest, ok := ref.Unframe(b)
	v.Assert(ok && len(rest) == 0, "one complete message")
	v.AssertEqBytes(p, want, "message bytes")
}

// fat is a structure with n fields.
type fat struct{ n int }

func (f fat) Signature() int { return 0x55 }
func (f fat) AllFields() []interface{} {
	out := make([]interface{}, f.n)
	for i := range out {
		out[i] = int64(i & 63)
	}
	return out
}

// C02_StructSizes: structures of 0..17, 127..129, 255..257, 32768, 65535 fields carry the right header.
func C02_StructSizes() {
	n := []int{0, 1, 14, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 32768, 65535}[v.Choose(15)]
	b, err := encoding.Marshal(fat{n})
	v.Assert(err == nil, "structure encodes")
	p, rest, ok := ref.Unframe(b)
	v.Assert(ok && len(rest) == 0, "one complete message")
	var want []byte
	switch {
	case n <= 15:
		want = []byte{0xB0 + byte(n)}
	case n <= 255:
		want = []byte{0xDC, byte(n)}
	default:
		want = []byte{0xDD, byte(n >> 8), byte(n)}
	}
	want = append(want, 0x55)
	for i := 0; i < n; i++ {
		want = append(want, byte(i&63))
	}
	v.AssertEqBytes(p, want, "structure bytes")
}

// frames asserts that the wire holds exactly these messages.
func frames(b []byte, want ...[]byte) {
	for _, w := range want {
		p, rest, ok := ref.Unframe(b)
		v.Assert(ok, "a complete message on the wire")
		v.AssertEqBytes(p, w, "message payload")
		b = rest
	}
	v.Assert(len(b) == 0, "nothing after the messages")
}

// C03_Small: two messages in a row with every chunk size 0..40 and 65532..65535; strings of 0..44 arbitrary bytes inside a list.
func C03_Small() {
	cs := chunkSize()
	s := v.Str(v.Concrete(v.Int(0, 44)))
	w1 := []interface{}{s, int64(v.I16()), s}
	w2 := tiny()
	b := &bytes.Buffer{}
	e := encoding.NewEncoder(b, cs)
	v.Assert(e.Encode(w1) == nil, "Encode accepts the value")
	v.Assert(e.Encode(w2) == nil, "Encode accepts the value")
	frames(b.Bytes(), ref.Enc(nil, w1), ref.Enc(nil, w2))
}

// C03_Values: arbitrary nested values with every chunk size 1..9.
func C03_Values() {
	cs := uint16(v.Concrete(v.Int(1, 9)))
	g, w := value(1)
	b := &bytes.Buffer{}
	e := encoding.NewEncoder(b, cs)
	v.Assert(e.Encode(g) == nil, "Encode accepts the value")
	v.Assert(e.Encode("x") == nil, "Encode accepts the value")
	frames(b.Bytes(), ref.Enc(nil, w), []byte{0x81, 'x'})
}

// C03_Large: strings around one and two full chunks (65528..65540, 131060..131075, 200000) for chunk sizes 0, 1000, 8192, 32768, 65534, 65535.
func C03_Large() {
	cs := []uint16{0, 1000, 8192, 32768, 65534, 65535}[v.Choose(6)]
	n := 0
	switch v.Choose(3) {
	case 0:
		n = 65528 + v.Concrete(v.Int(0, 12))
	case 1:
		n = 131060 + v.Concrete(v.Int(0, 15))
	case 2:
		n = 200000
	}
	s := v.Str(n)
	w := []interface{}{s, int64(1)}
	b := &bytes.Buffer{}
	e := encoding.NewEncoder(b, cs)
	v.Assert(e.Encode(w) == nil, "Encode accepts the value")
	v.Assert(e.Encode(nil) == nil, "Encode accepts the value")
	frames(b.Bytes(), ref.Enc(nil, w), []byte{0xC0})
}

// C03_Sizes: every chunk size 0..260 and around 511, 1023, 4095, 8191 and 32767 with messages whose pieces are of arbitrary lengths around multiples of the chunk size.
func C03_Sizes() {
	cs := 0
	if v.Bool() {
		cs = v.Concrete(v.Int(0, 260))
	} else {
		cs = []int{511, 1023, 4095, 8191, 32767}[v.Choose(5)] + v.Concrete(v.Int(0, 2))
	}
	n := 600
	if cs > 0 {
		k := 1 + v.Choose(2)
		n = k*cs - 6 + v.Concrete(v.Int(0, 9))
		if n < 0 {
			n = 0
		}
	}
	s := v.Str(n)
	w := []interface{}{"ab", s, int64(v.I64()), "cd"}
	b := &bytes.Buffer{}
	e := encoding.NewEncoder(b, uint16(cs))
	v.Assert(e.Encode(w) == nil, "Encode accepts the value")
	v.Assert(e.Encode("x") == nil, "Encode accepts the value")
	frames(b.Bytes(), ref.Enc(nil, w), []byte{0x81, 'x'})
}

// C03_Lengths: messages of every length 0..600 with chunk sizes 1, 2, 16, 255, 256, 300 and 65535.
func C03_Lengths() {
	cs := []uint16{1, 2, 16, 255, 256, 300, 65535}[v.Choose(7)]
	s := v.Str(v.Concrete(v.Int(0, 600)))
	b := &bytes.Buffer{}
	e := encoding.NewEncoder(b, cs)
	v.Assert(e.Encode(s) == nil, "Encode accepts the value")
	v.Assert(e.Encode(s) == nil, "Encode accepts the value")
	frames(b.Bytes(), ref.Str(nil, s), ref.Str(nil, s))
}

// C03_Many: many small pieces (lists of 300 arbitrary small items, of 20 strings of 0..40 bytes) with chunk sizes 1..20, 100, 255, 256.
func C03_Many() {
	cs := 0
	if v.Bool() {
		cs = v.Concrete(v.Int(1, 20))
	} else {
		cs = []int{100, 255, 256, 1000}[v.Choose(4)]
	}
	var w []interface{}
	if v.Bool() {
		x := tiny()
		for i := 0; i < 300; i++ {
			w = append(w, x)
		}
	} else {
		n := v.Concrete(v.Int(0, 40))
		for i := 0; i < 20; i++ {
			w = append(w, v.Str(n))
		}
	}
	b := &bytes.Buffer{}
	e := encoding.NewEncoder(b, uint16(cs))
	v.Assert(e.Encode(w) == nil, "Encode accepts the value")
	v.Assert(e.Encode(nil) == nil, "Encode accepts the value")
	frames(b.Bytes(), ref.Enc(nil, w), []byte{0xC0})
}
