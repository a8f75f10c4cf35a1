package enc

import (
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"

	"verifh/ref"
	"verifh/v"
)

// split frames p into k chunks with arbitrary boundaries.
func split(p []byte, k int) []byte {
	var b []byte
	for i := 0; i < k && len(p) > 1; i++ {
		n := v.Concrete(v.Int(1, len(p)-1))
		b = append(b, byte(n>>8), byte(n))
		b = append(b, p[:n]...)
		p = p[n:]
	}
	b = append(b, byte(len(p)>>8), byte(len(p)))
	b = append(b, p...)
	return append(b, 0, 0)
}

func small() interface{} {
	switch v.Choose(5) {
	case 0:
		return int64(v.I16())
	case 1:
		return v.Str(v.Concrete(v.Int(0, 5)))
	case 2:
		return []interface{}{v.Str(2), v.Bool()}
	case 3:
		return map[string]interface{}{v.Str(1): tiny()}
	}
	return nil
}

// C04_Chunks: every division of a message of up to 12 bytes into up to 4 chunks (thorough: 5), two messages back to back, then an EOF.
func C04_Chunks() {
	w1, w2 := small(), interface{}(v.Str(3))
	b := append(split(ref.Enc(nil, w1), 3+v.Tier()), split(ref.Enc(nil, w2), 1)...)
	s := &source{data: b}
	d := encoding.NewDecoder(s)
	got, err := d.Decode()
	v.Assert(err == nil, "first message decodes")
	ref.Same(got, w1, "first message")
	got, err = d.Decode()
	v.Assert(err == nil, "second message decodes")
	ref.Same(got, w2, "second message")
	v.Assert(s.pos == len(b), "exactly the messages were consumed")
	_, err = d.Decode()
	v.Assert(err != nil, "end of stream is an error")
}

// C04_Fragments: the transport hands out the bytes in arbitrary pieces (up to 5 arbitrary reads, thorough 7), including empty reads and data together with EOF.
func C04_Fragments() {
	w := small()
	b := split(ref.Enc(nil, w), 1)
	n := len(b)
	b = append(b, 0xAA, 0xBB)
	s := &source{data: b, mode: 1 + v.Choose(2), forks: 5 + 2*v.Tier(), zeros: 2}
	if v.Bool() {
		s.data, s.eof = b[:n], true
	}
	got, err := encoding.NewDecoder(s).Decode()
	v.Assert(err == nil, "fragmented message decodes")
	ref.Same(got, w, "fragmented message")
	v.Assert(s.pos == n, "not a byte of the next message was consumed")
}

// C04_Truncated: a message cut at any byte, by EOF or a transport error, with fragmented reads, is an error and never a value.
func C04_Truncated() {
	w := small()
	b := split(ref.Enc(nil, w), 1)
	cut := v.Concrete(v.Int(0, len(b)-1))
	s := &source{data: b[:cut], mode: v.Choose(2), forks: 3, eof: v.Bool()}
	if v.Bool() {
		s.err = errWire
	}
	got, err := encoding.NewDecoder(s).Decode()
	v.Assert(err != nil, "a truncated message is an error")
	v.Assert(got == nil, "a truncated message has no value")
}

// C04_Large: chunks of up to 65535 bytes: a string of arbitrary bytes around 65535 and 131070, or of 1100000, split into full chunks, read in full or with one short read.
func C04_Large() {
	n := []int{255, 256, 32767, 32768, 65531, 65532, 65533, 65535, 65536, 131066, 131070, 140000, 1100000}[v.Choose(13)]
	s := v.Str(n)
	p := ref.Str(nil, s)
	b := ref.Frame(p)
	if v.Bool() {
		k := []int{1, 255, 256, 4096, 32768}[v.Choose(5)]
		if k < len(p) {
			b = append([]byte{byte(k >> 8), byte(k)}, p[:k]...)
			b = append(b, ref.Frame(p[k:])...)
		}
	}
	src := &source{data: append(b, 0x77)}
	got, err := encoding.NewDecoder(src).Decode()
	v.Assert(err == nil, "large message decodes")
	ref.Same(got, s, "large message")
	v.Assert(src.pos == len(b), "exactly the message was consumed")
}

// C04_ManyChunks: messages of 1..400 bytes in chunks of 1, 2, 3, 100 or 255 bytes each, followed by another message.
func C04_ManyChunks() {
	n := []int{1, 15, 16, 17, 64, 255, 256, 257, 300, 400}[v.Choose(10)]
	k := []int{1, 2, 3, 100, 255}[v.Choose(5)]
	s := v.Str(n)
	p := ref.Str(nil, s)
	var b []byte
	for len(p) > 0 {
		m := k
		if m > len(p) {
			m = len(p)
		}
		b = append(b, 0, byte(m))
		b = append(b, p[:m]...)
		p = p[m:]
	}
	b = append(b, 0, 0)
	src := &source{data: append(b, 0, 1, 0x05, 0, 0)}
	d := encoding.NewDecoder(src)
	got, err := d.Decode()
	v.Assert(err == nil, "message decodes")
	ref.Same(got, s, "message in many chunks")
	v.Assert(src.pos == len(b), "exactly the message was consumed")
	got, err = d.Decode()
	v.Assert(err == nil, "second message decodes")
	ref.Same(got, int64(5), "second message")
}

// C04_LargeTruncated: messages of several full chunks cut at, around and between the chunk boundaries, or by a transport error, are errors.
func C04_LargeTruncated() {
	n := []int{300, 65535, 65536, 140000}[v.Choose(4)]
	b := ref.Frame(ref.Str(nil, v.Str(n)))
	cut := 0
	switch v.Choose(4) {
	case 0:
		cut = v.Concrete(v.Int(0, 12))
	case 1:
		cut = len(b) - 1 - v.Concrete(v.Int(0, 8))
	case 2:
		cut = 65530 + v.Concrete(v.Int(0, 14))
	case 3:
		cut = 2*65537 - 6 + v.Concrete(v.Int(0, 12))
	}
	v.Assume(cut < len(b))
	src := &source{data: b[:cut]}
	if v.Bool() {
		src.err = errWire
	}
	got, err := encoding.NewDecoder(src).Decode()
	v.Assert(err != nil, "a truncated message is an error")
	v.Assert(got == nil, "a truncated message has no value")
}

// C04_Empty: a message without any chunk, alone or in front of another message, is an error and consumes nothing of the next message.
func C04_Empty() {
	w := small()
	b := append([]byte{0, 0}, ref.Frame(ref.Enc(nil, w))...)
	src := &source{data: b}
	d := encoding.NewDecoder(src)
	got, err := d.Decode()
	v.Assert(err != nil, "an empty message is an error")
	v.Assert(got == nil, "an empty message has no value")
	v.Assert(src.pos == 2, "exactly the empty message was consumed")
	got, err = d.Decode()
	v.Assert(err == nil, "the next message decodes")
	ref.Same(got, w, "the next message")
}

// C04_Raw: every stream of up to 6 (thorough 7) arbitrary bytes that then ends or fails: a value comes out only if the stream starts with a complete message, it is that message's value, and exactly the message was taken.
func C04_Raw() {
	b := v.Bytes(v.Concrete(v.Int(0, 6+v.Tier())))
	raw(b)
}

// C04_Cut: one or two complete chunks, which may make up a whole value, followed by a chunk of arbitrary length that is cut short by the end of the stream, by an error, or not at all.
func C04_Cut() {
	var b []byte
	for i := 1 + v.Choose(2); i > 0; i-- {
		c := []byte{0x01, 0xC0, 0x80}[v.Choose(3)]
		b = append(b, 0, 1, c)
	}
	n := v.U16()
	b = append(b, byte(n>>8), byte(n))
	b = append(b, v.Bytes(v.Concrete(v.Int(0, 4)))...)
	raw(b[:len(b)-v.Choose(2)])
}

func raw(b []byte) {
	s := &source{data: b, eof: v.Bool()}
	if v.Bool() {
		s.err = errWire
	}
	p, rest, whole := ref.Unframe(b)
	var want interface{}
	ok, odd := false, false
	if whole {
		want, ok, odd = ref.Dec(p)
	}
	got, err := encoding.NewDecoder(s).Decode()
	if err == nil {
		v.Assert(whole, "a message that is cut short was accepted")
		v.Assert(ok, "a malformed message was accepted")
		ref.Same(got, want, "the decoded value")
		v.Assert(s.pos == len(b)-len(rest), "exactly the message was consumed")
		v.Reach("accepted")
	} else {
		v.Assert(!ok || odd, "a well-formed message was rejected")
		v.Assert(got == nil, "a rejected message has no value")
	}
}
