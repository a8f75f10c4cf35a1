package drv

import (
	"database/sql/driver"
	"io"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"

	"verifh/ref"
	"verifh/v"
)

// given makes the same parameters twice.
func given(s string, i int) (map[string]interface{}, map[string]interface{}) {
	mk := func() map[string]interface{} {
		return map[string]interface{}{
			"a": s, "n": nil, "i": i,
			"l": []interface{}{s, []string{s, "x"}, map[string]interface{}{s: nil, "k": []int{i}}},
			"i8": int8(-3), "i16": int16(300), "i32": int32(-70000), "i64": int64(i), "u": uint(7), "u8": uint8(200), "u16": uint16(5), "u32": uint32(9), "u64": uint64(1),
			"f32": float32(0.5), "f": 2.5, "b": true, "s": []string{s}, "is": []int{i}, "by": []byte(s), "e": []interface{}{}, "em": map[string]interface{}{}, "": "",
			"ptr": &graph.Node{NodeIdentity: 2, Labels: []string{s, "A"}, Properties: map[string]interface{}{"q": nil}},
			"g": graph.Node{NodeIdentity: int64(i), Labels: []string{s}, Properties: map[string]interface{}{"p": s}},
		}
	}
	return mk(), mk()
}

// C27_Params: parameters of any kind given to any call, which succeeds, is refused by the server, or fails to encode another set, are afterwards as they were, and the caller may change them at once: what was sent stays what it was.
func C27_Params() {
	s := newServer()
	bad := v.Choose(4)
	s.onPlan = func(p *Plan) {
		p.N = 1
		p.RunFail, p.PullFail = bad == 1, bad == 2
	}
	c := open(s)
	a, b := given(v.Str(1), int(v.I8()))
	x, y := map[string]interface{}{"x": "y"}, map[string]interface{}{"x": "y"}
	if bad == 3 {
		ch := make(chan int)
		x["c"], y["c"] = ch, ch
	}
	check := func() {
		ref.Strict(a, b, "the parameters given")
		v.Assert(len(x) == len(y) && x["x"] == "y" && x["c"] == y["c"], "the parameters given")
	}
	qs, ps := []string{"Q", "R"}, []map[string]interface{}{a, x}
	late := func() {
		check()
		v.Assert(len(qs) == 2 && qs[0] == "Q" && qs[1] == "R", "the queries given")
		for k := range a {
			a[k] = 1
		}
		x["more"] = "z"
		ps[0], ps[1] = nil, nil
	}
	switch v.Choose(6) {
	case 0:
		c.ExecNeo("Q", a)
		check()
		c.ExecNeo("Q", x)
	case 1:
		r, err := c.QueryNeo("Q", a)
		late()
		for err == nil {
			_, _, err = r.NextNeo()
		}
		c.Close()
	case 2:
		c.QueryNeoAll("Q", a)
		check()
		c.QueryNeoAll("Q", x)
	case 3:
		st, err := c.PrepareNeo("Q")
		v.Assert(err == nil, "PrepareNeo: succeeds")
		st.ExecNeo(a)
		check()
		r, err := st.QueryNeo(a)
		late()
		for err == nil {
			_, _, err = r.NextNeo()
		}
		st.Close()
	case 4:
		c.ExecPipeline(qs, ps...)
		v.Assert(len(ps) == 2, "the parameters given")
		ref.Strict(ps[0], b, "the parameters given")
	case 5:
		r, err := c.QueryPipeline(qs, ps...)
		v.Assert(len(ps) == 2, "the parameters given")
		ref.Strict(ps[0], b, "the parameters given")
		late()
		for i := 0; err == nil && i < 5; i++ {
			var nx bolt.PipelineRows
			_, _, nx, err = r.NextPipeline()
			if nx != nil {
				r = nx
			}
		}
		c.Close()
	}
	if len(s.plans) > 0 {
		w, err := encoding.Marshal(b)
		v.Assert(err == nil, "Marshal: succeeds")
		z, err := encoding.Unmarshal(w)
		v.Assert(err == nil, "Unmarshal: succeeds")
		ref.Same(s.plans[0].Params, z, "the parameters that were sent")
		v.Reach("sent")
	}
}

// C27_Args: encoded arguments of database/sql are not changed by any call, which succeeds or is refused, and the caller may overwrite them afterwards.
func C27_Args() {
	s := newServer()
	bad := v.Choose(2)
	s.onPlan = func(p *Plan) {
		p.N = 1
		p.RunFail = bad == 1
	}
	c := sqlOpen(s)
	want := map[string]interface{}{"k": v.Str(2), "l": []interface{}{v.Str(1), map[string]interface{}{"m": int64(v.I8())}}}
	m, err := encoding.Marshal(want)
	v.Assert(err == nil, "Marshal: succeeds")
	keep := append([]byte{}, m...)
	args := []driver.Value{m, m}
	sqlRun(c, "Q", args)
	v.Assert(len(args) == 2, "the arguments given")
	v.AssertEqBytes(m, keep, "the arguments given")
	b, ok := args[0].([]byte)
	v.Assert(ok, "the arguments given")
	v.AssertEqBytes(b, keep, "the arguments given")
	for i := range m {
		m[i] = 0xEE
	}
	ref.Same(s.plans[0].Params, want, "the parameters that were sent")
}

// C27_Rows: rows, columns and metadata that were returned, by any way of reading, stay as they are while the rest is read, other queries are run, and the connection is closed; and changing them changes nothing that is read later.
func C27_Rows() {
	s := newServer()
	s.tag = "t"
	a := v.Str(1)
	row := func(i int) []interface{} {
		return []interface{}{a, int64(i), []interface{}{a, int64(i)}, map[string]interface{}{"k": a, "i": int64(i)},
			graph.Node{NodeIdentity: int64(i), Labels: []string{a}, Properties: map[string]interface{}{"k": int64(i)}}}
	}
	n := 0
	s.rec = func(p *Plan, i int) []interface{} {
		if p.Q == "P" {
			return []interface{}{"probe", int64(99), []interface{}{}, map[string]interface{}{}, int64(0)}
		}
		n++
		return row(n)
	}
	s.onPlan = func(p *Plan) { p.N = 2 }
	c := open(s)
	change := v.Choose(2) == 1
	var kept [][]interface{}
	var metas []map[string]interface{}
	var wants []map[string]interface{}
	meta := func(q, msg string, m map[string]interface{}) {
		ref.Same(m, map[string]interface{}{"sum": q, "tag": s.tag}, msg)
		metas = append(metas, m)
		wants = append(wants, map[string]interface{}{"sum": q, "tag": s.tag})
		if change {
			m["sum"], m["new"] = "changed", 1
		}
	}
	one := func(r []interface{}) {
		kept = append(kept, r)
		ref.Same(r, row(len(kept)), "a row")
		if change {
			r[2].([]interface{})[0] = "changed"
			r[3].(map[string]interface{})["k"] = "changed"
			delete(r[4].(graph.Node).Properties, "k")
			r[4].(graph.Node).Labels[0] = "changed"
			r[0], r[1] = "changed", "changed"
		}
	}
	cols := func(q string, cs []string) {
		v.Assert(len(cs) == 2, "Columns: as announced")
		v.AssertEqStr(cs[0], "c:"+q, "Columns: as announced")
		if change {
			cs[0] = "changed"
		}
	}
	two := func(r bolt.Rows, err error) {
		v.Assert(err == nil, "QueryNeo: succeeds")
		cols("Q", r.Columns())
		for {
			x, m, err := r.NextNeo()
			cols("Q", r.Columns())
			if err == io.EOF {
				meta("Q", "the summary", m)
				break
			}
			v.Assert(err == nil, "NextNeo: succeeds")
			one(x)
		}
		v.Assert(r.Close() == nil, "Rows.Close: succeeds")
	}
	switch v.Choose(6) {
	case 0:
		two(c.QueryNeo("Q", nil))
	case 1:
		st, err := c.PrepareNeo("Q")
		v.Assert(err == nil, "PrepareNeo: succeeds")
		two(st.QueryNeo(nil))
		two(st.QueryNeo(nil))
		v.Assert(st.Close() == nil, "Stmt.Close: succeeds")
	case 2:
		d, _, m, err := c.QueryNeoAll("Q", nil)
		v.Assert(err == nil && len(d) == 2, "QueryNeoAll: succeeds")
		for _, x := range d {
			one(x)
		}
		meta("Q", "the summary", m)
	case 3:
		r, err := c.QueryPipeline([]string{"Q", "R"}, nil, nil)
		v.Assert(err == nil, "QueryPipeline: succeeds")
		for i := 0; i < 6; i++ {
			cols("QR"[i/3:i/3+1], r.Columns())
			x, m, nx, err := r.NextPipeline()
			v.Assert(err == nil, "NextPipeline: succeeds")
			if x != nil {
				one(x)
			} else if nx != nil {
				r = nx
			} else if m != nil {
				meta("R", "the summary", m)
			}
		}
		v.Assert(r.Close() == nil, "Rows.Close: succeeds")
	case 4:
		rs, err := c.ExecPipeline([]string{"Q", "R"}, nil, nil)
		v.Assert(err == nil && len(rs) == 2, "ExecPipeline: succeeds")
		n = 0
		meta("Q", "the result", rs[0].Metadata())
		meta("R", "the result", rs[1].Metadata())
	case 5:
		r, err := c.ExecNeo("Q", nil)
		v.Assert(err == nil, "ExecNeo: succeeds")
		n = 0
		meta("Q", "the result", r.Metadata())
		r, err = c.ExecNeo("R", nil)
		v.Assert(err == nil, "ExecNeo: succeeds")
		meta("R", "the result", r.Metadata())
	}
	d, _, _, err := c.QueryNeoAll("P", nil)
	v.Assert(err == nil && len(d) == 2, "QueryNeoAll: succeeds")
	ref.Same(d[0], []interface{}{"probe", int64(99), []interface{}{}, map[string]interface{}{}, int64(0)}, "the rows of a later query")
	v.Assert(c.Close() == nil, "Close: succeeds")
	for i, r := range kept {
		if !change {
			ref.Same(r, row(i+1), "a row that was read before")
			continue
		}
		v.Assert(r[0] == "changed" && r[1] == "changed", "a row that the caller changed")
	}
	for i, m := range metas {
		if !change {
			ref.Same(m, wants[i], "metadata that was returned before")
		}
	}
	v.Reach("kept")
}

// C27_Dest: values that database/sql got for one row stay as they are while later rows are read into other destinations, and when the rows are closed.
func C27_Dest() {
	s := newServer()
	a := v.Str(1)
	at := v.Choose(4) // where the list is
	s.rec = func(p *Plan, i int) []interface{} {
		x := []interface{}{a, a, a, a}
		x[at], x[(at+1)%4], x[(at+2)%4] = []interface{}{a, int64(i)}, map[string]interface{}{a: int64(i)}, int64(i)
		return x
	}
	s.onPlan = func(p *Plan) { p.N = 3 }
	c := sqlOpen(s)
	r, err := c.(driver.Queryer).Query("Q", nil)
	v.Assert(err == nil, "Query: succeeds")
	var rows [][]driver.Value
	for i := 0; i < 3; i++ {
		dest := make([]driver.Value, 4)
		v.Assert(r.Next(dest) == nil, "Next: a row")
		rows = append(rows, dest)
	}
	spoil := v.Choose(2) == 1
	if spoil {
		b := rows[1][at].([]byte)
		for i := range b {
			b[i] = 0xEE
		}
	}
	v.Assert(r.Next(make([]driver.Value, 4)) == io.EOF, "Next: the end")
	v.Assert(r.Close() == nil, "Rows.Close: succeeds")
	_, err = c.(driver.Execer).Exec("R", nil)
	v.Assert(err == nil, "Exec: succeeds")
	for i, row := range rows {
		ref.Same(row[(at+3)%4], a, "a value read before")
		ref.Same(row[(at+2)%4], int64(i), "a value read before")
		if !spoil || i != 1 {
			x, err := encoding.Unmarshal(row[at].([]byte))
			v.Assert(err == nil, "a value read before decodes")
			ref.Same(x, []interface{}{a, int64(i)}, "a value read before")
		}
		x, err := encoding.Unmarshal(row[(at+1)%4].([]byte))
		v.Assert(err == nil, "a value read before decodes")
		ref.Same(x, map[string]interface{}{a: int64(i)}, "a value read before")
	}
}
