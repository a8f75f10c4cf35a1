package drv

import (
	"io"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"verifh/ref"
	"verifh/v"
)

// field is an arbitrary field of a record.
func field() interface{} {
	switch v.Choose(6) {
	case 0:
		return nil
	case 1:
		return v.Bool()
	case 2:
		return int64(v.I16())
	case 3:
		return v.Str(2)
	case 4:
		return []interface{}{v.Bool(), v.Str(1)}
	}
	return map[string]interface{}{v.Str(1): v.Bool()}
}

// C13_Steps: rows of a query or of a statement with 0..2 (thorough 3) records, every sequence of 4 (thorough 5) calls among Next, All and Close, one failure anywhere in the stream; on connections of drivers and pools, inside and outside a transaction, with and without columns.
func C13_Steps() {
	w := newCtx()
	w.s.maxRec = 2 + v.Tier()
	if v.Choose(2) == 0 {
		w.query()
	} else {
		w.prepare()
		w.stmtQuery()
	}
	w.steps(4+v.Tier(), []func(){w.next, w.all, w.rowsClose})
	w.probe()
}

// C13_Contents: the records' fields reach the caller unchanged and in order: up to 2 records of up to 2 arbitrary fields, arbitrary column names, responses arriving in pieces and in one or several chunks.
func C13_Contents() {
	w := newAny()
	w.s.canFail = 0
	var sent [][]interface{}
	w.s.rec = func(p *Plan, i int) []interface{} {
		r := []interface{}{}
		if i == 0 {
			for n := v.Choose(3); n > 0; n-- {
				r = append(r, field())
			}
		} else {
			r = append(r, v.Str(2), v.Bool())
		}
		sent = append(sent, r)
		return r
	}
	names := []interface{}{v.Str(2), v.Str(1)}
	w.s.onPlan = func(p *Plan) {
		p.N = 2
		p.Fields = names
	}
	w.s.frag, w.s.split = v.Choose(2)*3, v.Choose(2)*4
	var rows bolt.Rows
	var err error
	if v.Choose(2) == 0 {
		rows, err = w.c.QueryNeo("Q", nil)
	} else {
		var st bolt.Stmt
		st, err = w.c.PrepareNeo("Q")
		v.Assert(err == nil, "PrepareNeo: succeeds")
		rows, err = st.QueryNeo(nil)
	}
	v.Assert(err == nil, "QueryNeo: succeeds")
	cols := rows.Columns()
	v.Assert(len(cols) == 2, "Columns: as many as the server announced")
	for i := range cols {
		v.AssertEqStr(cols[i], names[i].(string), "Columns: the names the server announced")
	}
	ref.Same(rows.Metadata()["fields"], names, "Metadata: as the server sent it")
	if v.Choose(2) == 0 {
		got, meta, err := rows.All()
		v.Assert(err == nil, "All: succeeds")
		v.Assert(len(got) == len(sent), "All: number of rows")
		for i := range got {
			ref.Same(got[i], sent[i], "All: row")
		}
		ref.Same(meta, w.s.Plan("Q").summary(), "All: summary")
	} else {
		for i := 0; i < 2; i++ {
			got, _, err := rows.NextNeo()
			v.Assert(err == nil, "NextNeo: a row")
			ref.Same(got, sent[i], "NextNeo: row")
		}
	}
	v.Assert(rows.Close() == nil, "Rows.Close: succeeds")
}

// C13_Many: 20 (thorough 300) records stream through Next and All, stopped at any point; then the next query gets its own rows.
func C13_Many() {
	w := newWorld()
	w.s.onPlan = func(p *Plan) { p.N = 20 + 280*v.Tier() }
	w.query()
	stop := v.Concrete(v.Int(0, 21))
	for i := 0; i < stop; i++ {
		w.next()
	}
	if v.Choose(2) == 0 {
		w.all()
	}
	w.rowsClose()
	w.s.onPlan = nil
	w.probe()
}

// C13_Columns: the fields announced by the server are missing, of another type, or contain something else than names: Columns gives none, or exactly the names, and never panics; the rows are still all there.
func C13_Columns() {
	w := newWorld()
	w.s.canFail = 0
	var fields interface{}
	var want []string
	switch v.Choose(7) {
	case 6:
		for i := 1 + v.Choose(3); i > 0; i-- {
			want = append(want, v.Str(v.Choose(2)))
		}
		l := []interface{}{}
		for _, x := range want {
			l = append(l, x)
		}
		fields = l
	case 0:
		fields = param(0)
		if l, ok := fields.([]interface{}); ok {
			v.Assert(len(l) == 0, "no names")
		}
	case 1:
		fields = []interface{}{v.Str(1), field()}
		if x, ok := fields.([]interface{})[1].(string); ok {
			want = []string{fields.([]interface{})[0].(string), x}
		}
	case 2:
		fields = map[string]interface{}{v.Str(1): v.Str(1)}
	case 3:
		l := []interface{}{}
		for i := 0; i < 17; i++ {
			want = append(want, "c"+string(rune('a'+i)))
			l = append(l, want[i])
		}
		fields = l
	case 4:
		want = []string{v.Str(3), v.Str(3)}
		fields = []interface{}{want[0], want[1]}
	case 5:
		w.s.noFields = true
	}
	w.s.fields = fields
	w.s.hasFields = true
	w.s.onPlan = func(p *Plan) { p.N = 1 }
	r, err := w.c.QueryNeo("Q", nil)
	v.Assert(err == nil, "QueryNeo: succeeds")
	got := r.Columns()
	v.Assert(len(got) == len(want), "Columns: the names, or none")
	for i := range got {
		v.AssertEqStr(got[i], want[i], "Columns: the names the server announced")
	}
	data, _, err := r.All()
	v.Assert(err == nil && len(data) == 1, "All: the rows")
	w.checkRow(data[0], "Q", 0, "All: row")
	v.Assert(r.Close() == nil, "Rows.Close: succeeds")
}

// C13_Wide: records of 14..20 fields, and fields of up to 300 bytes, arriving in pieces of 1..n bytes and in one or several chunks.
func C13_Wide() {
	w := newWorld()
	n := 14 + v.Choose(7)
	mark := v.Str(2)
	w.s.rec = func(p *Plan, i int) []interface{} {
		r := []interface{}{}
		for k := 0; k < n; k++ {
			switch {
			case k == 3:
				r = append(r, mark)
			case k == 7:
				b := make([]byte, 300)
				b[i] = 'x'
				r = append(r, string(b)+mark)
			default:
				r = append(r, int64(k*100+i))
			}
		}
		return r
	}
	w.s.onPlan = func(p *Plan) { p.N = 3 }
	w.s.frag, w.s.split = []int{0, 1, 64}[v.Choose(3)], []int{0, 1, 100, 255}[v.Choose(4)]
	rows, err := w.c.QueryNeo("Q", nil)
	v.Assert(err == nil, "QueryNeo: succeeds")
	for i := 0; i < 3; i++ {
		got, _, err := rows.NextNeo()
		v.Assert(err == nil, "NextNeo: a row")
		ref.Same(got, w.s.rec(nil, i), "NextNeo: row")
	}
	_, _, err = rows.NextNeo()
	v.Assert(err == io.EOF, "NextNeo: io.EOF at the end")
	v.Assert(rows.Close() == nil, "Rows.Close: succeeds")
}

// C13_Shapes: 1..7 records with no fields, null fields, or equal to the record before, in any combination of two kinds, read by NextNeo, All, QueryNeoAll or a pipeline: each of them is a row.
func C13_Shapes() {
	w := newWorld()
	n := 1 + v.Choose(7)
	kinds := [][]interface{}{{}, {nil}, {nil, nil}, {"same"}, {false}, {int64(0)}, {""}}
	a, b, pat := kinds[v.Choose(len(kinds))], kinds[v.Choose(len(kinds))], v.Choose(3)
	w.s.rec = func(p *Plan, i int) []interface{} {
		switch {
		case pat == 0 && i%2 == 0, pat == 1 && i < 3, pat == 2 && i == n-1:
			return a
		}
		return b
	}
	w.s.onPlan = func(p *Plan) { p.N = n }
	var got [][]interface{}
	var err error
	switch v.Choose(4) {
	case 0:
		got, _, _, err = w.c.QueryNeoAll("Q", nil)
		v.Assert(err == nil, "QueryNeoAll: succeeds")
	case 1:
		r, err := w.c.QueryNeo("Q", nil)
		v.Assert(err == nil, "QueryNeo: succeeds")
		got, _, err = r.All()
		v.Assert(err == nil, "All: succeeds")
	case 2:
		st, err := w.c.PrepareNeo("Q")
		v.Assert(err == nil, "PrepareNeo: succeeds")
		r, err := st.QueryNeo(nil)
		v.Assert(err == nil, "Stmt.QueryNeo: succeeds")
		for i := 0; i < n; i++ {
			row, _, err := r.NextNeo()
			v.Assert(err == nil, "NextNeo: a row")
			got = append(got, row)
		}
		_, _, err = r.NextNeo()
		v.Assert(err == io.EOF, "NextNeo: io.EOF at the end")
	case 3:
		r, err := w.c.QueryPipeline([]string{"Q"}, nil)
		v.Assert(err == nil, "QueryPipeline: succeeds")
		for i := 0; i < n; i++ {
			row, _, _, err := r.NextPipeline()
			v.Assert(err == nil, "NextPipeline: a row")
			got = append(got, row)
		}
		v.Assert(r.Close() == nil, "PipelineRows.Close: succeeds")
	}
	v.Assert(len(got) == n, "number of rows")
	for i := range got {
		ref.Same(got[i], w.s.rec(nil, i), "row")
	}
}
