package enc

import (
	"bytes"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"

	"verifh/ref"
	"verifh/v"
)

// hostile bounds the length of arbitrary payloads.
func hostileLen() int {
	n := 5
	if v.Tier() > 0 {
		n = 6
	}
	return v.Concrete(v.Int(0, n))
}

// C05_Raw: arbitrary bytes (up to 6, thorough 7), chunk headers included: an error or a value, no panic, no allocation above 256 KiB.
func C05_Raw() {
	n := v.Concrete(v.Int(0, 6+v.Tier()))
	b := v.Bytes(n)
	v.AllocLimit(1 << 18)
	_, err := encoding.Unmarshal(b)
	if err == nil {
		v.Reach("accepted")
	}
}

// C05_Payload: a well-framed message of up to 5 arbitrary bytes (thorough 6).
func C05_Payload() {
	b := ref.Frame(v.Bytes(hostileLen()))
	v.AllocLimit(1 << 18)
	_, err := encoding.Unmarshal(b)
	if err == nil {
		v.Reach("accepted")
	}
}

// any1 is one arbitrary well-formed small item of any type.
func any1() []byte {
	switch v.Choose(13) {
	case 0:
		return []byte{0xC0}
	case 1:
		return []byte{0xC3}
	case 2:
		return []byte{v.U8() & 0x7F}
	case 3:
		return []byte{0xCB, 1, 2, 3, 4, 5, 6, 7, 8}
	case 4:
		return []byte{0xC1, 1, 2, 3, 4, 5, 6, 7, 8}
	case 5:
		return []byte{0x81, 'a'}
	case 6:
		return []byte{0x90}
	case 7:
		return []byte{0x91, 0x81, 'b'}
	case 8:
		return []byte{0x91, 0x01}
	case 9:
		return []byte{0xA0}
	case 10:
		return []byte{0xB3, 0x4E, 0x01, 0x91, 0x81, 'L', 0xA0}
	case 11:
		return []byte{0x91, 0xB3, 0x4E, 0x01, 0x90, 0xA0}
	}
	return []byte{0x91, 0xB3, 0x72, 0x01, 0x81, 'T', 0xA0}
}

var sigs = []byte{0x4E, 0x52, 0x72, 0x50, 0x71, 0x70, 0x7F, 0x7E, 0x0E, 0x2F, 0x3F, 0x0F, 0x10, 0x01}

// structBytes is a structure of any known signature with 0..k fields of arbitrary types, nested or not.
func structBytes(k int) []byte {
	sig := sigs[v.Choose(len(sigs))]
	n := v.Concrete(v.Int(0, k))
	var b []byte
	switch v.Choose(2) {
	case 0:
		b = []byte{0xB0 + byte(n), sig}
	case 1:
		b = []byte{0xDC, byte(n), sig}
	}
	for i := 0; i < n; i++ {
		b = append(b, any1()...)
	}
	return b
}

// structFields is a structure of a known signature with its declared number of
// fields, well typed except for one field of any other type.
func structFields() []byte {
	good := [][][]byte{
		{{0xB3, 0x4E}, {0x05}, {0x91, 0x81, 'L'}, {0xA1, 0x81, 'k', 0x01}},
		{{0xB5, 0x52}, {0x05}, {0x06}, {0x07}, {0x81, 'T'}, {0xA0}},
		{{0xB3, 0x72}, {0x05}, {0x81, 'T'}, {0xA0}},
		{{0xB3, 0x50}, {0x91, 0xB3, 0x4E, 0x01, 0x90, 0xA0}, {0x91, 0xB3, 0x72, 0x01, 0x81, 'T', 0xA0}, {0x92, 0x01, 0x01}},
		{{0xB1, 0x71}, {0x92, 0x01, 0x02}},
		{{0xB1, 0x70}, {0xA1, 0x81, 'k', 0x01}},
		{{0xB1, 0x7F}, {0xA1, 0x84, 'c', 'o', 'd', 'e', 0x81, 'x'}},
	}
	g := good[v.Choose(len(good))]
	bad := v.Choose(len(g))
	var b []byte
	b = append(b, g[0]...)
	for i := 1; i < len(g); i++ {
		if i == bad {
			b = append(b, any1()...)
		} else {
			b = append(b, g[i]...)
		}
	}
	switch v.Choose(3) {
	case 1:
		return append([]byte{0x92, 0x01}, b...)
	case 2:
		return append([]byte{0xA1, 0x81, 'z'}, b...)
	}
	return b
}

// C05_Structs: structures of every known signature with up to 3 fields of arbitrary types.
func C05_Structs() {
	b := ref.Frame(structBytes(2 + v.Tier()))
	v.AllocLimit(1 << 18)
	encoding.Unmarshal(b)
}

// C05_Fields: well-formed structures in which one field has any other type.
func C05_Fields() {
	b := ref.Frame(structFields())
	v.AllocLimit(1 << 18)
	encoding.Unmarshal(b)
}

// C05_Sizes: every marker with a size, arbitrary 8, 16 or 32 bit size, followed by 0..3 bytes: no allocation above 256 KiB.
func C05_Sizes() {
	m := []byte{0xD0, 0xD1, 0xD2, 0xD4, 0xD5, 0xD6, 0xD8, 0xD9, 0xDA, 0xDC, 0xDD}[v.Choose(11)]
	b := append([]byte{m}, v.Bytes(v.Concrete(v.Int(0, 4)))...)
	b = append(b, 0x01, 0x81, 'a')
	v.AllocLimit(1 << 18)
	encoding.Unmarshal(ref.Frame(b))
}

// C05_Nested: 120 levels of nested lists, maps or both, all claiming any number of items up to 10000, over 20000 more bytes: all allocations together stay below 4 MiB.
func C05_Nested() {
	kind := v.Choose(4)
	const levels, rest = 120, 20000
	b := make([]byte, rest)
	b[0] = 0xC4 // no such marker
	var h []byte
	n := v.Int(2, rest/2)
	for i := levels - 1; i >= 0; i-- {
		s0, s1 := byte(n>>8), byte(n)
		switch {
		case kind == 0 || kind == 2 && i%2 == 0:
			h = append(h, 0xD5, s0, s1)
		case kind == 3:
			h = append(h, 0xD6, 0, 0, s0, s1)
		default:
			h = append(h, 0xD9, s0, s1, 0x81, 'k')
		}
	}
	f := ref.Frame(append(h, b...))
	v.AllocTotal(4 << 20)
	_, err := encoding.Unmarshal(f)
	v.Assert(err != nil, "a message with an unknown marker was accepted")
}

// C05_Deep: a message nested 60000 levels deep (lists, maps, or node properties) does not exhaust a stack of 50000 calls.
func C05_Deep() {
	unit := [][]byte{{0x91}, {0xA1, 0x80}, {0xD4, 1}, {0xB1, 0x71, 0x91}}[v.Choose(4)]
	var b []byte
	for i := 0; i < 60000; i++ {
		b = append(b, unit...)
	}
	f := ref.Frame(append(b, 0x01))
	v.StackLimit(200000)
	encoding.Unmarshal(f)
}

// diff compares the decoder with the reference decoder on a payload.
func diff(p []byte) {
	want, ok, odd := ref.Dec(p)
	got, err := encoding.Unmarshal(ref.Frame(p))
	if err == nil {
		v.Assert(ok, "a malformed message was accepted")
		ref.Same(got, want, "the decoded value")
		v.Reach("accepted")
	} else {
		v.Assert(!ok || odd, "a well-formed message was rejected")
		v.Assert(got == nil, "a rejected message has no value")
		v.Reach("rejected")
	}
}

// C06_Payload: every payload of up to 4 bytes (thorough 5): accepted exactly when the reference decoder accepts it, with the same value.
func C06_Payload() { diff(v.Bytes(v.Concrete(v.Int(0, 4+v.Tier())))) }

// C06_Structs: structures of every known signature with up to 3 fields of arbitrary types.
func C06_Structs() { diff(structBytes(2 + v.Tier())) }

// C06_Fields: well-formed structures in which one field has any other type, nested in nothing, a list or a map.
func C06_Fields() { diff(structFields()) }

// C06_Truncated: the encoding of an arbitrary nested value with its last 1..3 bytes cut off, or with 1..2 arbitrary bytes added, inside complete framing.
func C06_Truncated() {
	_, w := value(1)
	p := ref.Enc(nil, w)
	if v.Bool() {
		k := v.Concrete(v.Int(1, 3))
		v.Assume(k < len(p))
		p = p[:len(p)-k]
	} else {
		p = append(p, v.Bytes(v.Concrete(v.Int(1, 2)))...)
	}
	_, err := encoding.Unmarshal(ref.Frame(p))
	v.Assert(err != nil, "a message with missing or left over bytes was accepted")
}

// C06_Sizes: each sized marker with a size whose first and last byte are arbitrary over a few items: accepted only if the items are all there.
func C06_Sizes() {
	m := []byte{0xD0, 0xD1, 0xD2, 0xD4, 0xD5, 0xD6, 0xD8, 0xD9, 0xDA}[v.Choose(9)]
	k := v.Concrete(v.Int(0, 4))
	b := append([]byte{m}, make([]byte, k)...)
	// at most two bytes of the size are arbitrary
	if k > 0 {
		b[k] = v.U8()
	}
	if k > 1 {
		b[1] = v.U8()
	}
	b = append(b, 0x81, 'a', 0x01, 0x81, 'b', 0x02)
	diff(b)
}

// C06_LongStrings: strings whose 8, 16 or 32 bit size is a boundary value, complete, or short by one byte, or one byte over.
func C06_LongStrings() {
	n := []int{16, 127, 128, 255, 256, 32767, 32768, 65535, 65536}[v.Choose(9)]
	w := v.Choose(3)
	var p []byte
	switch {
	case w == 0 && n <= 255:
		p = []byte{0xD0, byte(n)}
	case w <= 1 && n <= 65535:
		p = []byte{0xD1, byte(n >> 8), byte(n)}
	default:
		p = []byte{0xD2, 0, byte(n >> 16), byte(n >> 8), byte(n)}
	}
	s := v.Str(n)
	d := v.Choose(3) - 1
	body := append([]byte(s), 0x05)[:n+d]
	got, err := encoding.NewDecoder(bytes.NewReader(ref.Frame(append(p, body...)))).Decode()
	if d == 0 {
		v.Assert(err == nil, "a complete string was rejected")
		ref.Same(got, s, "the string")
	} else {
		v.Assert(err != nil, "a string of the wrong size was accepted")
	}
}

// C06_Keys: maps of two and three entries with arbitrary keys of one byte, repeated keys included: the last entry counts, or the message is rejected.
func C06_Keys() {
	n := 2 + v.Choose(2)
	p := []byte{0xA0 + byte(n)}
	for i := 0; i < n; i++ {
		p = append(p, 0x81, v.U8(), v.U8()&0x7F)
	}
	switch v.Choose(3) {
	case 1:
		p = append([]byte{0xB1, 0x70}, p...)
	case 2:
		p = append([]byte{0xB3, 0x4E, 0x01, 0x90}, p...)
	}
	diff(p)
}

// C06_Numbers: every integer and float marker followed by arbitrary bytes, as many as it takes, fewer, or one more; alone, in a list, a map or a node.
func C06_Numbers() {
	i := v.Choose(5)
	m, n := []byte{0xC8, 0xC9, 0xCA, 0xCB, 0xC1}[i], []int{1, 2, 4, 8, 8}[i]
	k := v.Choose(4)
	if k == 0 {
		n = v.Concrete(v.Int(0, n+1))
	}
	p := append([]byte{m}, v.Bytes(n)...)
	switch k {
	case 1:
		p = append([]byte{0x91}, p...)
	case 2:
		p = append([]byte{0xA1, 0x81, 'k'}, p...)
	case 3:
		p = append([]byte{0xB3, 0x4E}, append(p, 0x90, 0xA0)...)
	}
	diff(p)
}

// C06_Headers: strings, lists and maps of 0..300 items under every header wide enough to hold their size, complete, one item short, or with a byte left over.
func C06_Headers() {
	n := []int{0, 1, 2, 15, 16, 17, 127, 128, 200, 255, 256, 300}[v.Choose(12)]
	kind := v.Choose(3)
	width := v.Choose(4)
	h := [][]byte{{0x80, 0xD0, 0xD1, 0xD2}, {0x90, 0xD4, 0xD5, 0xD6}, {0xA0, 0xD8, 0xD9, 0xDA}}[kind]
	var p []byte
	switch {
	case width == 0:
		v.Assume(n <= 15)
		p = []byte{h[0] + byte(n)}
	case width == 1:
		v.Assume(n <= 255)
		p = []byte{h[1], byte(n)}
	case width == 2:
		p = []byte{h[2], byte(n >> 8), byte(n)}
	default:
		p = []byte{h[3], 0, 0, byte(n >> 8), byte(n)}
	}
	d := v.Choose(3) - 1
	if n == 0 && d < 0 {
		d = 0
	}
	for i := 0; i < n+d; i++ {
		switch kind {
		case 0:
			p = append(p, v.U8())
		case 1:
			p = append(p, byte(i&63))
		default:
			p = append(append(p, ref.Str(nil, key(i))...), byte(i&63))
		}
	}
	if kind > 0 && n > 0 {
		p[len(p)-1] = v.U8() & 0x7F
	}
	diff(p)
}

// C06_Inside: a malformed item (unknown marker, cut integer, cut string, list of the wrong size) in the last place of a list, map, node, path or record.
func C06_Inside() {
	bad := [][]byte{{0xC4}, {0xDF}, {0xEF}, {0xC9, 0x01}, {0x82, 'a'}, {0x92, 0x01}, {0xA1, 0x81, 'k'}, {0xA1, 0x01, 0x01}, {0xB1, 0x01, 0x01}, {}}[v.Choose(10)]
	in := [][]byte{{0x93, 0x01, 0x02}, {0xA2, 0x81, 'a', 0x01, 0x81, 'b'}, {0xB3, 0x4E, 0x01, 0x90}, {0xB3, 0x4E, 0x01}, {0xB3, 0x50, 0x90, 0x90}, {0xB3, 0x50, 0x91}, {0xB1, 0x71, 0x92, 0x01}, {0xB1, 0x70}, {0xB5, 0x52, 0x01, 0x02, 0x03, 0x81, 'T'}, {0xB5, 0x52, 0x01, 0x02, 0x03}, {0xB5, 0x52, 0x01, 0x02}, {0xB3, 0x72, 0x01, 0x81, 'T'}, {0xB3, 0x72, 0x01}}[v.Choose(13)]
	diff(append(append([]byte{}, in...), bad...))
}

// items are small values of every type.
var items = [][]byte{
	{0xC0}, {0xC2}, {0x07}, {0xCB, 1, 2, 3, 4, 5, 6, 7, 8}, {0xC1, 1, 2, 3, 4, 5, 6, 7, 8}, {0x80}, {0x81, 'a'}, {0x90}, {0x91, 0x81, 'b'}, {0xA0}, {0xA1, 0x81, 'k', 0x01},
	{0xB3, 0x4E, 0x01, 0x91, 0x81, 'L', 0xA0},
	{0xB5, 0x52, 0x05, 0x06, 0x07, 0x81, 'T', 0xA0},
	{0xB3, 0x72, 0x01, 0x81, 'T', 0xA0},
	{0xB3, 0x50, 0x90, 0x90, 0x90},
	{0xB1, 0x71, 0x90}, {0xB1, 0x70, 0xA0}, {0xB1, 0x7F, 0xA0}, {0xB0, 0x7E}, {0xB0, 0x3F},
}

// C06_Elements: nodes, paths, maps and messages in which one label, key, node, relationship or index of several, in any place, is of any other type.
func C06_Elements() {
	x := items[v.Choose(len(items))]
	kind := v.Choose(6)
	good := [][]byte{{0x81, 'L'}, {0xB3, 0x4E, 0x01, 0x90, 0xA0}, {0xB3, 0x72, 0x01, 0x81, 'T', 0xA0}, {0x01}, {0x81, 'k'}, {0x01}}[kind]
	n := 1 + v.Choose(3)
	at := v.Choose(n)
	var l []byte
	for i := 0; i < n; i++ {
		if i == at {
			l = append(l, x...)
		} else {
			l = append(l, good...)
		}
		if kind == 4 {
			l = append(l, 0x05)
		}
	}
	l = append([]byte{0x90 + byte(n)}, l...)
	var p []byte
	switch kind {
	case 0:
		p = append(append([]byte{0xB3, 0x4E, 0x01}, l...), 0xA0)
	case 1:
		p = append(append([]byte{0xB3, 0x50}, l...), 0x90, 0x90)
	case 2:
		p = append(append([]byte{0xB3, 0x50, 0x90}, l...), 0x90)
	case 3:
		p = append([]byte{0xB3, 0x50, 0x90, 0x90}, l...)
	case 4:
		l[0] = 0xA0 + byte(n)
		p = append([]byte{0xB1, []byte{0x70, 0x7F}[v.Choose(2)]}, l...)
	case 5:
		p = append([]byte{0xB1, 0x71}, l...)
	}
	if v.Choose(2) == 1 {
		p = append([]byte{0xB1, 0x71, 0x92, 0x01}, p...)
	}
	diff(p)
}
