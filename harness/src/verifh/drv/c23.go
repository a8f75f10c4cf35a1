package drv

import (
	"database/sql/driver"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"verifh/ref"
	"verifh/v"
)

// stats is an arbitrary statistics map and the sum of what RowsAffected counts.
func stats() (map[string]interface{}, int64) {
	m := map[string]interface{}{}
	var sum int64
	for _, k := range []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"} {
		if v.Choose(2) == 1 {
			x := int64(v.I32())
			if v.Tier() == 0 {
				x = int64(v.I16())
			}
			m[k] = x
			sum += x
		}
	}
	if v.Choose(2) == 1 {
		m["properties-set"] = int64(7)
	}
	return m, sum
}

// C23_Stats: statistics with any subset of the counters and arbitrary 16 (thorough 32) bit counts: RowsAffected is the number of nodes and relationships created and deleted.
func C23_Stats() {
	s := newServer()
	m, sum := stats()
	meta := map[string]interface{}{"stats": m, "type": v.Str(1)}
	s.onPlan = func(p *Plan) { p.Meta = meta }
	c := open(s)
	r, err := c.ExecNeo("Q", nil)
	v.Assert(err == nil, "ExecNeo: succeeds")
	n, err := r.RowsAffected()
	v.Assert(err == nil, "RowsAffected: succeeds")
	v.Assert(n == sum, "RowsAffected: nodes and relationships created and deleted")
	id, err := r.LastInsertId()
	v.Assert(err == nil && id == -1, "LastInsertId: always -1")
	ref.Same(r.Metadata(), meta, "Metadata: as the server sent it")
}

// C23_Odd: metadata without statistics, or with statistics or counters of another type, gives zero or an error and never a panic.
func C23_Odd() {
	s := newServer()
	meta := map[string]interface{}{}
	var want int64
	fails := false
	switch v.Choose(4) {
	case 0:
	case 1:
		meta["stats"] = field0()
		fails = true
	case 2:
		meta["stats"] = map[string]interface{}{}
	case 3:
		k := []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"}[v.Choose(4)]
		meta["stats"] = map[string]interface{}{k: field0()}
		fails = true
	}
	s.onPlan = func(p *Plan) { p.Meta = meta }
	c := open(s)
	r, err := c.ExecNeo("Q", nil)
	v.Assert(err == nil, "ExecNeo: succeeds")
	n, err := r.RowsAffected()
	if fails {
		v.Assert(err != nil, "RowsAffected: statistics of the wrong type are an error")
		return
	}
	v.Assert(err == nil && n == want, "RowsAffected: zero without statistics")
}

// field0 is neither an integer nor a map.
func field0() interface{} {
	switch v.Choose(4) {
	case 0:
		return nil
	case 1:
		return v.Bool()
	case 2:
		return v.Str(2)
	}
	return []interface{}{int64(1)}
}

// C23_Pipeline: every result of a pipeline has its own metadata and count.
func C23_Pipeline() {
	s := newServer()
	k := 1 + v.Choose(3)
	var sums []int64
	s.onPlan = func(p *Plan) {
		a, b := int64(v.I16()), int64(len(sums))
		p.Meta = map[string]interface{}{"stats": map[string]interface{}{"nodes-created": a, "relationships-deleted": b}}
		sums = append(sums, a+b)
	}
	c := open(s)
	rs, err := c.ExecPipeline([]string{"A", "B", "C"}[:k], make([]map[string]interface{}, k)...)
	v.Assert(err == nil && len(rs) == k, "ExecPipeline: succeeds")
	for i, r := range rs {
		n, err := r.RowsAffected()
		v.Assert(err == nil, "RowsAffected: succeeds")
		v.Assert(n == sums[i], "RowsAffected: of its own query")
		ref.Same(r.Metadata(), s.plans[i].Meta, "Metadata: of its own query")
	}
}

// C23_Large: counters at and around the limits of their encodings, including the largest integers, are added up; other counters are not.
func C23_Large() {
	s := newServer()
	big := []int64{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 53, 1<<62 - 1}
	x := big[v.Choose(len(big))]
	names := []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"}
	i := v.Choose(4)
	m := map[string]interface{}{names[i]: x, names[(i+1)%4]: int64(3)}
	for _, k := range []string{"properties-set", "labels-added", "labels-removed", "indexes-added", "indexes-removed", "constraints-added", "constraints-removed"} {
		m[k] = int64(v.I8())&15 + 1
	}
	m["contains-updates"] = v.Bool()
	s.onPlan = func(p *Plan) {
		p.Meta = map[string]interface{}{"stats": m, "plan": map[string]interface{}{"nodes-created": int64(5)}, "nodes-created": int64(9)}
	}
	c := open(s)
	var r bolt.Result
	var err error
	switch v.Choose(3) {
	case 0:
		r, err = c.ExecNeo("Q", nil)
	case 1:
		var st bolt.Stmt
		st, err = c.PrepareNeo("Q")
		v.Assert(err == nil, "PrepareNeo: succeeds")
		r, err = st.ExecNeo(nil)
	case 2:
		var rs []bolt.Result
		rs, err = c.ExecPipeline([]string{"Q"}, nil)
		v.Assert(err == nil && len(rs) == 1, "ExecPipeline: succeeds")
		r = rs[0]
	}
	v.Assert(err == nil, "succeeds")
	n, err := r.RowsAffected()
	v.Assert(err == nil && n == x+3, "RowsAffected: nodes and relationships created and deleted")
	again, err := r.RowsAffected()
	v.Assert(err == nil && again == n, "RowsAffected: the same again")
}

// C23_Own: two calls of any kind (queries, statements run twice, pipelines of three queries, also prepared, and database/sql), each query with its own statistics, none, empty ones or some of the wrong type: every result tells its own, also after later calls and after the connection was closed.
func C23_Own() {
	w := newAny()
	s, c := w.s, w.c
	kind := v.Choose(4)
	s.onPlan = func(p *Plan) {
		k := kind
		if len(s.plans)%2 == 1 {
			k = v.Choose(4)
		}
		switch k {
		case 0:
			p.Meta = map[string]interface{}{}
		case 1:
			p.Meta = map[string]interface{}{"stats": map[string]interface{}{"nodes-created": int64(v.I8()) & 63, "relationships-deleted": int64(len(s.plans))}}
		case 2:
			p.Meta = map[string]interface{}{"type": "r", "stats": map[string]interface{}{}}
		case 3:
			p.Meta = map[string]interface{}{"type": "w", "stats": "none"}
		}
	}
	var rs []driver.Result
	keep := func(r bolt.Result, err error) {
		v.Assert(err == nil, "succeeds")
		rs = append(rs, r)
	}
	keepAll := func(all []bolt.Result, err error) {
		v.Assert(err == nil, "succeeds")
		for _, r := range all {
			keep(r, nil)
		}
	}
	for i := 0; i < 2; i++ {
		switch v.Choose(5) {
		case 0:
			keep(c.ExecNeo("Q", nil))
		case 1:
			st, err := c.PrepareNeo("Q")
			v.Assert(err == nil, "PrepareNeo: succeeds")
			keep(st.ExecNeo(nil))
			keep(st.ExecNeo(nil))
			v.Assert(st.Close() == nil, "Stmt.Close: succeeds")
		case 2:
			keepAll(c.ExecPipeline([]string{"A", "B", "C"}, nil, nil, nil))
		case 3:
			st, err := c.PreparePipeline("A", "B", "C")
			v.Assert(err == nil, "PreparePipeline: succeeds")
			keepAll(st.ExecPipeline(nil, nil, nil))
			v.Assert(st.Close() == nil, "PipelineStmt.Close: succeeds")
		case 4:
			st, err := c.(driver.Conn).Prepare("Q")
			v.Assert(err == nil, "Prepare: succeeds")
			r, err := st.Exec(nil)
			v.Assert(err == nil, "Stmt.Exec: succeeds")
			rs = append(rs, r)
			v.Assert(st.Close() == nil, "Stmt.Close: succeeds")
		}
	}
	v.Assert(c.Close() == nil, "Conn.Close: succeeds")
	v.Assert(len(rs) == len(s.plans), "one result per query")
	for i, r := range rs {
		m := s.plans[i].Meta
		if nr, ok := r.(bolt.Result); ok {
			ref.Same(nr.Metadata(), m, "Metadata: of its own query")
		}
		id, err := r.LastInsertId()
		v.Assert(err == nil && id == -1, "LastInsertId: always -1")
		n, err := r.RowsAffected()
		switch st := m["stats"].(type) {
		case string:
			v.Assert(err != nil, "RowsAffected: statistics of the wrong type are an error")
		case map[string]interface{}:
			var want int64
			for _, x := range st {
				want += x.(int64)
			}
			v.Assert(err == nil && n == want, "RowsAffected: of its own query")
		default:
			v.Assert(err == nil && n == 0, "RowsAffected: zero without statistics")
		}
	}
}
