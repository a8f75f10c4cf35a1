package enc

import (
	"math"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"

	"verifh/ref"
	"verifh/v"
)

// C01_Ints: every value of every Go integer type (uint and uint64 up to MaxInt64) decodes to the same int64.
func C01_Ints() {
	g, w := integer()
	roundTrip(g, w)
}

// C01_Floats: every float64 bit pattern, NaN payloads included, decodes to the same bits; bool and nil too.
func C01_Floats() {
	switch v.Choose(4) {
	case 0:
		f := math.Float64frombits(v.U64())
		roundTrip(f, f)
	case 1:
		b := v.Bool()
		roundTrip(b, b)
	case 2:
		roundTrip(nil, nil)
	case 3:
		for _, f := range []float32{0, 1, -1.5, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1))} {
			roundTrip(f, float64(f))
		}
	}
}

// C01_Float32: every float32 that is a number or an infinity, on its own and in lists, is encoded as the float64 of the same value; a NaN as a NaN.
func C01_Float32() {
	f := math.Float32frombits(v.U32())
	if v.Choose(2) == 0 {
		v.Assume(f == f)
		roundTrip(f, float64(f))
		return
	}
	v.Assume(f != f)
	b, err := encoding.Marshal(f)
	v.Assert(err == nil, "Marshal: succeeds")
	x, err := encoding.Unmarshal(b)
	v.Assert(err == nil, "Unmarshal: succeeds")
	g, ok := x.(float64)
	v.Assert(ok && g != g, "a NaN stays a NaN")
}

// bigSizes are the lengths around every encoding boundary.
var bigSizes = []int{0, 1, 14, 15, 16, 17, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 32766, 32767, 32768, 32769, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65540, 131070, 131071, 140000}

// C01_Strings: arbitrary contents for every length 0..300 and each length around the 16-bit and chunk boundaries (32767, 32768, 65535, 65536, ... 140000).
func C01_Strings() {
	n := 0
	if v.Bool() {
		n = v.Concrete(v.Int(0, 300))
	} else {
		n = bigSizes[v.Choose(len(bigSizes))]
	}
	s := v.Str(n)
	roundTrip(s, s)
}

var listSizes = []int{0, 1, 2, 14, 15, 16, 17, 100, 127, 128, 129, 200, 254, 255, 256, 257, 1000}
var listSizesBig = []int{32767, 32768, 32769, 65534, 65535, 65536, 65537}

func sizes(small, big []int) int {
	if v.Tier() > 0 {
		small = append(append([]int{}, small...), big...)
	}
	return small[v.Choose(len(small))]
}

// item is any kind of value, small or large, to be put somewhere in a collection.
func item() interface{} {
	switch v.Choose(10) {
	case 0:
		return nil
	case 1:
		return v.Bool()
	case 2:
		return v.I64()
	case 3:
		return math.Float64frombits(v.U64())
	case 4:
		return v.Str(v.Concrete(v.Int(0, 3)))
	case 5:
		return v.Str(300)
	case 6:
		return []interface{}{}
	case 7:
		return map[string]interface{}{}
	case 8:
		return map[string]interface{}{"": []interface{}{nil, v.Str(1)}}
	}
	return graph.Node{NodeIdentity: v.I64(), Labels: []string{}, Properties: map[string]interface{}{}}
}

// at is an interesting position in a collection of n items.
func at(n int) int {
	l := []int{0, n - 1, n / 2}
	for _, k := range []int{15, 16} {
		if k < n-1 && k != n/2 {
			l = append(l, k)
		}
	}
	if n < 3 {
		l = l[:n]
	}
	return l[v.Choose(len(l))]
}

// C01_Lists: lists of small integers and strings of every boundary length up to 1000 (thorough: to 65537), with an arbitrary item of any kind at the first, last, middle and boundary positions.
func C01_Lists() {
	n := sizes(listSizes, append([]int{}, listSizesBig...))
	w := list(n)
	roundTrip(w, w)
}

func list(n int) []interface{} {
	x, s := int64(v.I8()), v.Str(1)
	w := make([]interface{}, n)
	for i := range w {
		if i%2 == 0 {
			w[i] = x
		} else {
			w[i] = s
		}
	}
	if n > 0 {
		w[at(n)] = item()
	}
	return w
}

// C01_ListBig: lists of 32768 and 65536 items.
func C01_ListBig() {
	n := []int{32768, 65536}[v.Choose(2)]
	x := v.Bool()
	w := make([]interface{}, n)
	for i := range w {
		w[i] = x
	}
	roundTrip(w, w)
}

func key(i int) string {
	return string([]byte{byte('a' + i%26), byte('a' + i/26%26), byte('a' + i/676)})
}

// dict has n entries; one of them is of any kind, or has an arbitrary key of 0..17 bytes.
func dict(n int) map[string]interface{} {
	w := map[string]interface{}{}
	for i := 0; i < n; i++ {
		w[key(i)] = int64(i)
	}
	if n > 0 {
		if v.Bool() {
			w[key(n/2)] = item()
		} else {
			delete(w, key(0))
			k := []int{0, 1, 2, 4, 15, 16, 17}[v.Choose(7)]
			w[v.Str(k)] = tiny()
		}
	}
	return w
}

// C01_Maps: maps of every boundary size up to 300 entries (thorough: 1000) with one entry of any kind and one arbitrary key of 0..17 bytes.
func C01_Maps() {
	small := []int{0, 1, 2, 14, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 300}
	n := sizes(small, []int{1000})
	w := dict(n)
	roundTrip(w, w)
}

// C01_MapBig: maps of 32767, 32768, 65535 and 65536 entries with one arbitrary value.
func C01_MapBig() {
	n := []int{32767, 32768, 65535, 65536}[v.Choose(4)]
	w := map[string]interface{}{}
	for i := 0; i < n; i++ {
		w[key(i)] = int64(i & 63)
	}
	w[key(n/2)] = v.Bool()
	roundTrip(w, w)
}

// C01_LongKeys: keys of 16..300 bytes and around the 16-bit boundary.
func C01_LongKeys() {
	n := []int{16, 17, 127, 128, 255, 256, 300, 32768, 65535, 65536}[v.Choose(10)]
	w := map[string]interface{}{v.Str(n): v.I64()}
	if v.Bool() {
		w["other"] = leaf()
	}
	roundTrip(w, w)
}

// C01_BigGraph: nodes with up to 300 labels and properties, type names up to 300 bytes, paths of up to 40 nodes and sequences of up to 300 numbers.
func C01_BigGraph() {
	n := []int{2, 15, 16, 17, 128, 255, 256, 300}[v.Choose(8)]
	var x interface{}
	switch v.Choose(6) {
	case 0:
		g := graph.Node{NodeIdentity: v.I64(), Properties: map[string]interface{}{}}
		for i := 0; i < n; i++ {
			g.Labels = append(g.Labels, key(i))
		}
		g.Labels[n/2] = v.Str(2)
		g.Labels[n-1] = v.Str(1)
		x = g
	case 1:
		x = graph.Node{NodeIdentity: tiny(), Labels: []string{v.Str(n), "b"}, Properties: dict(n)}
	case 2:
		x = graph.Relationship{RelIdentity: tiny(), StartNodeIdentity: tiny(), EndNodeIdentity: tiny(), Type: v.Str(n), Properties: dict(n)}
	case 3:
		x = graph.UnboundRelationship{RelIdentity: tiny(), Type: v.Str(n), Properties: dict(n)}
	case 4:
		x = bigPath(n)
	case 5:
		p := graph.Path{Nodes: []graph.Node{{NodeIdentity: 1, Labels: []string{}, Properties: map[string]interface{}{}}}}
		for i := 0; i < n; i++ {
			p.Sequence = append(p.Sequence, i-40)
		}
		p.Sequence[n/2] = int(v.I64())
		x = p
	}
	roundTrip(x, x)
}

func bigPath(n int) graph.Path {
	if n > 40 {
		n = 40
	}
	p := graph.Path{}
	for i := 0; i < n; i++ {
		p.Nodes = append(p.Nodes, graph.Node{NodeIdentity: int64(i), Labels: []string{"l"}, Properties: map[string]interface{}{"a": int64(i)}})
		if i > 0 {
			p.Relationships = append(p.Relationships, graph.UnboundRelationship{RelIdentity: int64(100 + i), Type: "t", Properties: map[string]interface{}{"b": int64(i)}})
			p.Sequence = append(p.Sequence, i, i)
		}
	}
	// one number of the path is arbitrary, the others are small
	num := func(k, which int) int64 {
		if k == which {
			return v.I64()
		}
		return tiny()
	}
	k := v.Choose(6)
	p.Nodes[n/2] = graph.Node{NodeIdentity: num(k, 0), Labels: []string{v.Str(2)}, Properties: map[string]interface{}{v.Str(1): num(k, 1)}}
	p.Nodes[n-1].NodeIdentity = num(k, 2)
	p.Relationships[len(p.Relationships)/2] = graph.UnboundRelationship{RelIdentity: num(k, 3), Type: v.Str(2), Properties: map[string]interface{}{v.Str(1): v.Bool()}}
	p.Relationships[len(p.Relationships)-1].RelIdentity = num(k, 4)
	p.Sequence[len(p.Sequence)-1] = int(num(k, 5))
	return p
}

// C01_Nested: arbitrary values nested two deep (thorough: three), width up to 2: scalars, lists, maps, nodes, relationships, paths.
func C01_Nested() {
	g, w := value(1 + v.Tier())
	if v.Bool() {
		roundTrip(g, w)
	} else {
		roundTrip([]interface{}{g, "x"}, []interface{}{w, "x"})
	}
}

// C01_TypedSlices: slices of Go types other than interface{} decode to the list of their items.
func C01_TypedSlices() {
	n := v.Concrete(v.Int(0, 3))
	w := []interface{}{}
	switch v.Choose(8) {
	case 0:
		g := []string{}
		for i := 0; i < n; i++ {
			s := v.Str(i)
			g, w = append(g, s), append(w, s)
		}
		roundTrip(g, w)
	case 1:
		g := []int{}
		for i := 0; i < n; i++ {
			s := v.I64()
			g, w = append(g, int(s)), append(w, s)
		}
		roundTrip(g, w)
	case 2:
		g := []int64{}
		for i := 0; i < n; i++ {
			s := v.I64()
			g, w = append(g, s), append(w, s)
		}
		roundTrip(g, w)
	case 3:
		g := v.Bytes(n)
		for i := 0; i < n; i++ {
			w = append(w, int64(g[i]))
		}
		roundTrip(g, w)
	case 4:
		g := []float64{}
		for i := 0; i < n; i++ {
			s := math.Float64frombits(v.U64())
			g, w = append(g, s), append(w, s)
		}
		roundTrip(g, w)
	case 5:
		g := []bool{}
		for i := 0; i < n; i++ {
			s := v.Bool()
			g, w = append(g, s), append(w, s)
		}
		roundTrip(g, w)
	case 6:
		g := []map[string]interface{}{}
		for i := 0; i < n; i++ {
			s := props()
			g, w = append(g, s), append(w, s)
		}
		roundTrip(g, w)
	case 7:
		g := [][]string{}
		for i := 0; i < n; i++ {
			s := v.Str(1)
			g, w = append(g, []string{s}), append(w, []interface{}{s})
		}
		roundTrip(g, w)
	}
}

type names []string
type ids []int64
type bag []interface{}

// others is a list in one more Go type, and what it denotes.
func others() (interface{}, []interface{}) {
	nodeOf := func() graph.Node {
		return graph.Node{NodeIdentity: v.I64(), Labels: []string{"l"}, Properties: map[string]interface{}{"a": v.Bool()}}
	}
	switch v.Choose(20) {
	case 0:
		a, b := v.I8(), v.I8()
		return []int8{a, b}, []interface{}{int64(a), int64(b)}
	case 1:
		a, b := v.I16(), v.I16()
		return []int16{a, b}, []interface{}{int64(a), int64(b)}
	case 2:
		a, b := v.I32(), v.I32()
		return []int32{a, b}, []interface{}{int64(a), int64(b)}
	case 3:
		a, b := v.U16(), v.U16()
		return []uint16{a, b}, []interface{}{int64(a), int64(b)}
	case 4:
		a, b := v.U32(), v.U32()
		return []uint32{a, b}, []interface{}{int64(a), int64(b)}
	case 5:
		a, b := v.U64(), v.U64()
		v.Assume(a <= math.MaxInt64 && b <= math.MaxInt64)
		return []uint64{a, b}, []interface{}{int64(a), int64(b)}
	case 6:
		a, b := v.U64(), v.U64()
		v.Assume(a <= math.MaxInt64 && b <= math.MaxInt64)
		return []uint{uint(a), uint(b)}, []interface{}{int64(a), int64(b)}
	case 7:
		return []float32{0.5, -2}, []interface{}{0.5, float64(-2)}
	case 8:
		b := v.Bytes(2)
		return [][]byte{b, {}}, []interface{}{[]interface{}{int64(b[0]), int64(b[1])}, []interface{}{}}
	case 9:
		a, b := nodeOf(), nodeOf()
		return []graph.Node{a, b}, []interface{}{a, b}
	case 10:
		a, b := nodeOf(), nodeOf()
		return []*graph.Node{&a, &b}, []interface{}{a, b}
	case 11:
		a := graph.Path{Nodes: []graph.Node{nodeOf()}}
		return []graph.Path{a}, []interface{}{a}
	case 12:
		a := unbound()
		return []graph.UnboundRelationship{a}, []interface{}{a}
	case 13:
		a := graph.Relationship{RelIdentity: v.I64(), StartNodeIdentity: 2, EndNodeIdentity: 3, Type: v.Str(1), Properties: map[string]interface{}{}}
		return []*graph.Relationship{&a}, []interface{}{a}
	case 14:
		a := v.Str(2)
		return names{a, "x"}, []interface{}{a, "x"}
	case 15:
		a := v.I64()
		return ids{a}, []interface{}{a}
	case 16:
		a := leaf()
		return bag{a, a}, []interface{}{a, a}
	case 17:
		a, b := v.I64(), v.Str(1)
		return [][]interface{}{{a, b}, {}}, []interface{}{[]interface{}{a, b}, []interface{}{}}
	case 18:
		a := v.I64()
		return [][][]int64{{{a}}}, []interface{}{[]interface{}{[]interface{}{a}}}
	}
	switch v.Choose(4) {
	case 0:
		return []string(nil), []interface{}{}
	case 1:
		return []interface{}(nil), []interface{}{}
	case 2:
		return []map[string]interface{}{nil}, []interface{}{map[string]interface{}{}}
	}
	return []interface{}{map[string]interface{}(nil), []int(nil)}, []interface{}{map[string]interface{}{}, []interface{}{}}
}

// C01_OtherSlices: slices of every integer width, of structures and pointers to them, of slices, named slice types, and nil slices and maps, alone or inside a map or list.
func C01_OtherSlices() {
	g, w := others()
	switch v.Choose(3) {
	case 0:
		roundTrip(g, w)
	case 1:
		roundTrip(map[string]interface{}{"k": g}, map[string]interface{}{"k": w})
	case 2:
		roundTrip([]interface{}{g, "z"}, []interface{}{w, "z"})
	}
}

// C01_BigSlices: typed slices of 15..300 items (thorough: 65536) with an arbitrary item.
func C01_BigSlices() {
	n := sizes([]int{15, 16, 17, 127, 128, 255, 256, 300}, []int{32768, 65535, 65536})
	w := make([]interface{}, n)
	k := at(n)
	switch v.Choose(4) {
	case 0:
		g := make([]string, n)
		for i := range g {
			g[i] = "s"
		}
		g[k] = v.Str(17)
		for i := range g {
			w[i] = g[i]
		}
		roundTrip(g, w)
	case 1:
		g := make([]int, n)
		for i := range g {
			g[i] = i
		}
		g[k] = int(v.I64())
		for i := range g {
			w[i] = int64(g[i])
		}
		roundTrip(g, w)
	case 2:
		g := make([]byte, n)
		g[k] = v.U8()
		for i := range g {
			w[i] = int64(g[i])
		}
		roundTrip(g, w)
	case 3:
		g := make([]float64, n)
		g[k] = math.Float64frombits(v.U64())
		for i := range g {
			w[i] = g[i]
		}
		roundTrip(g, w)
	}
}

// C01_Graph: nodes, relationships and paths at top level and inside lists and maps.
func C01_Graph() {
	var x interface{}
	switch v.Choose(4) {
	case 0:
		x = node()
	case 1:
		x = graph.Relationship{RelIdentity: v.I64(), StartNodeIdentity: tiny(), EndNodeIdentity: int64(v.I16()), Type: v.Str(v.Concrete(v.Int(0, 3))), Properties: props()}
	case 2:
		x = unbound()
	case 3:
		x = path()
	}
	switch v.Choose(3) {
	case 1:
		x = []interface{}{x, int64(1)}
	case 2:
		x = map[string]interface{}{"k": x}
	}
	roundTrip(x, x)
}

// C01_Deep: a value nested n levels deep in lists, maps, or nodes, for n at 20, 1000 and around the deepest that is decoded: whatever is encoded decodes to the same.
func C01_Deep() {
	v.StackLimit(200000)
	n := [...]int{20, 1000, 3332, 3333, 3334, 4998, 4999, 5000, 5001, 9997, 9998, 9999, 10000, 10001}[v.Choose(14)]
	how := v.Choose(4)
	s := v.Str(1)
	var x interface{} = s
	for i := 0; i < n; i++ {
		switch how {
		case 0:
			x = []interface{}{x}
		case 1:
			x = map[string]interface{}{"k": x}
		case 2:
			if i%2 == 0 {
				x = map[string]interface{}{"k": x}
			} else {
				x = &graph.Node{NodeIdentity: 7, Properties: x.(map[string]interface{})}
			}
		case 3:
			x = []map[string]interface{}{{"k": x}}
		}
	}
	b, err := encoding.Marshal(x)
	if err != nil {
		v.Assert(n > 1000, "a value is encoded")
		v.Reach("refused")
		return
	}
	v.Reach("encoded")
	x, err = encoding.Unmarshal(b)
	v.Assert(err == nil, "what was encoded decodes")
	for i := n - 1; i >= 0; i-- {
		if how == 2 && i%2 == 1 {
			g, ok := x.(graph.Node)
			v.Assert(ok && g.NodeIdentity == 7, "a node")
			x = g.Properties
			continue
		}
		if how == 0 || how == 3 {
			l, ok := x.([]interface{})
			v.Assert(ok && len(l) == 1, "a list")
			x = l[0]
		}
		if how != 0 {
			m, ok := x.(map[string]interface{})
			v.Assert(ok && len(m) == 1, "a map")
			x = m["k"]
		}
	}
	ref.Same(x, s, "the value inside")
}

// C01_ChunkSizes: a nested value survives every chunk size 0..40 and 65530..65535 of the encoder.
func C01_ChunkSizes() {
	w := []interface{}{v.Str(v.Concrete(v.Int(0, 20))), graph.Node{NodeIdentity: tiny(), Labels: []string{v.Str(1)}, Properties: map[string]interface{}{"k": tiny()}}}
	chunked(w, chunkSize())
}
