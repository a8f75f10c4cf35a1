package ref

import (
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"

	"verifh/v"
)

// Strict asserts that got is exactly the Go value want.
func Strict(got, want interface{}, msg string) {
	switch w := want.(type) {
	case int:
		g, ok := got.(int)
		v.Assert(ok && g == w, msg+": int")
	case int8, int16, int32, uint, uint8, uint16, uint32, uint64, float32:
		v.Assert(got == want, msg+": number")
	case []byte:
		g, ok := got.([]byte)
		v.Assert(ok, msg+": []byte type")
		v.AssertEqBytes(g, w, msg+": []byte")
	case []string:
		g, ok := got.([]string)
		v.Assert(ok, msg+": []string type")
		sameStrs(g, w, msg+": []string")
	case []int:
		g, ok := got.([]int)
		v.Assert(ok && len(g) == len(w), msg+": []int type")
		for i := range w {
			v.Assert(g[i] == w[i], msg+": []int")
		}
	case []interface{}:
		g, ok := got.([]interface{})
		v.Assert(ok && len(g) == len(w), msg+": list")
		for i := range w {
			Strict(g[i], w[i], msg)
		}
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		v.Assert(ok && len(g) == len(w) && (g == nil) == (w == nil), msg+": map")
		for k, x := range w {
			y, ok := g[k]
			v.Assert(ok, msg+": map key")
			Strict(y, x, msg)
		}
	case *graph.Node:
		g, ok := got.(*graph.Node)
		v.Assert(ok && g != nil, msg+": *Node")
		Same(*g, *w, msg)
	case graph.Path:
		Same(got, want, msg)
		v.Assert((got.(graph.Path).Sequence == nil) == (w.Sequence == nil), msg+": path")
	default:
		Same(got, want, msg)
	}
}
