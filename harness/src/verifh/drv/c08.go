package drv

import (
	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"verifh/ref"
	"verifh/v"
)

// param is an arbitrary parameter value.
func param(d int) interface{} {
	n := 7
	if d > 0 {
		n = 9
	}
	switch v.Choose(n) {
	case 0:
		return nil
	case 1:
		return v.Bool()
	case 2:
		return int64(v.I32())
	case 3:
		return v.Str(3)
	case 4:
		return float64(v.I8()) / 4
	case 5:
		return ""
	case 6:
		return []interface{}{}
	case 7:
		return []interface{}{param(d - 1), v.Str(1)}
	}
	return map[string]interface{}{v.Str(1): param(d - 1)}
}

func chunkSizes() uint16 {
	return []uint16{65535, 1, 5, 0}[v.Choose(4)]
}

// sent asserts that the server was asked exactly this since n.
func sent(s *Server, n int, want []byte, msg string) {
	got := s.reqs[n:]
	v.Assert(len(got) == len(want), msg+": number of requests")
	for i := range want {
		if want[i] == 0x3F {
			// the rows of a call that returns none may be pulled or discarded
			v.Assert(got[i] == 0x3F || got[i] == 0x2F, msg+": requests")
			continue
		}
		v.Assert(got[i] == want[i], msg+": requests")
	}
}

// C08_Params: an arbitrary query text and up to two arbitrary parameters reach the server unchanged in exactly one RUN, through every call that takes them and for every chunk size.
func C08_Params() {
	s := newServer()
	s.fixed = true
	c := open(s)
	c.SetChunkSize(chunkSizes())
	q := v.Str(3 * v.Choose(2))
	var params, keep map[string]interface{}
	switch v.Choose(3) {
	case 1:
		params = map[string]interface{}{v.Str(2): param(1)}
	case 2:
		params = map[string]interface{}{"a": param(0), "b" + v.Str(1): param(0)}
	}
	want := map[string]interface{}{}
	if params != nil {
		keep = map[string]interface{}{}
	}
	for k, x := range params {
		want[k], keep[k] = x, x
	}
	n := len(s.reqs)
	runPull := []byte{0x10, 0x3F}
	switch v.Choose(7) {
	case 0:
		_, err := c.ExecNeo(q, params)
		v.Assert(err == nil, "ExecNeo: succeeds")
		sent(s, n, runPull, "ExecNeo")
	case 1:
		r, err := c.QueryNeo(q, params)
		v.Assert(err == nil, "QueryNeo: succeeds")
		_, _, err = r.NextNeo()
		v.Assert(err == nil, "NextNeo: a row")
		v.Assert(r.Close() == nil, "Rows.Close: succeeds")
		sent(s, n, runPull, "QueryNeo")
	case 2:
		data, _, _, err := c.QueryNeoAll(q, params)
		v.Assert(err == nil, "QueryNeoAll: succeeds")
		v.Assert(len(data) == s.plans[0].N, "QueryNeoAll: the rows")
		sent(s, n, runPull, "QueryNeoAll")
	case 3:
		st, err := c.PrepareNeo(q)
		v.Assert(err == nil, "PrepareNeo: succeeds")
		sent(s, n, nil, "PrepareNeo")
		_, err = st.ExecNeo(params)
		v.Assert(err == nil, "Stmt.ExecNeo: succeeds")
		sent(s, n, runPull, "Stmt.ExecNeo")
	case 4:
		st, err := c.PrepareNeo(q)
		v.Assert(err == nil, "PrepareNeo: succeeds")
		r, err := st.QueryNeo(params)
		v.Assert(err == nil, "Stmt.QueryNeo: succeeds")
		_, _, err = r.NextNeo()
		v.Assert(err == nil, "NextNeo: a row")
		sent(s, n, runPull, "Stmt.QueryNeo")
	case 5:
		_, err := c.ExecPipeline([]string{"first", q}, nil, params)
		v.Assert(err == nil, "ExecPipeline: succeeds")
		sent(s, n, append(runPull, runPull...), "ExecPipeline")
		v.AssertEqStr(s.plans[0].Q, "first", "ExecPipeline: the queries run in order")
		ref.Same(s.plans[0].Params, map[string]interface{}{}, "ExecPipeline: each query has its own parameters")
	case 6:
		r, err := c.QueryPipeline([]string{q, "last"}, params, nil)
		v.Assert(err == nil, "QueryPipeline: succeeds")
		row, _, _, err := r.NextPipeline()
		v.Assert(err == nil && row != nil, "NextPipeline: a row")
		v.Assert(r.Close() == nil, "PipelineRows.Close: succeeds")
		sent(s, n, append(runPull, runPull...), "QueryPipeline")
		v.AssertEqStr(s.plans[1].Q, "last", "QueryPipeline: the queries run in order")
		ref.Same(s.plans[1].Params, map[string]interface{}{}, "QueryPipeline: each query has its own parameters")
		s.plans = s.plans[:1]
	}
	p := s.plans[len(s.plans)-1]
	v.AssertEqStr(p.Q, q, "the query text")
	ref.Same(p.Params, want, "the parameters")
	v.Assert((params == nil) == (keep == nil), "the caller's parameters are left alone")
	ref.Same(params, keep, "the caller's parameters are left alone")
	v.Assert(c.Close() == nil, "Close: succeeds")
}

// C08_Again: a prepared statement run three times with other parameters each time (some read, some abandoned, some none), and the chunk size changed in between: each run has its own query, parameters and rows.
func C08_Again() {
	s := newServer()
	s.fixed = true
	c := open(s)
	q := v.Str(2)
	st, err := c.PrepareNeo(q)
	v.Assert(err == nil, "PrepareNeo: succeeds")
	for i := 0; i < 3; i++ {
		if i == 1 {
			c.SetChunkSize(chunkSizes())
		}
		var params map[string]interface{}
		want := map[string]interface{}{}
		switch v.Choose(3) {
		case 1:
			params = map[string]interface{}{v.Str(1): v.Str(1)}
			want = params
		case 2:
			params = map[string]interface{}{"s": v.Str(1), "i": int64(i), "l": []interface{}{v.Bool()}}
			want = params
		}
		n := len(s.reqs)
		switch v.Choose(3) {
		case 0:
			_, err := st.ExecNeo(params)
			v.Assert(err == nil, "Stmt.ExecNeo: succeeds")
		case 1:
			r, err := st.QueryNeo(params)
			v.Assert(err == nil, "Stmt.QueryNeo: succeeds")
			row, _, err := r.NextNeo()
			v.Assert(err == nil, "NextNeo: a row")
			ref.Same(row, record(s.cur(), 0), "NextNeo: row")
			v.Assert(r.Close() == nil, "Rows.Close: succeeds")
		case 2:
			r, err := st.QueryNeo(params)
			v.Assert(err == nil, "Stmt.QueryNeo: succeeds")
			v.Assert(r.Close() == nil, "Rows.Close: succeeds")
		}
		sent(s, n, []byte{0x10, 0x3F}, "running a statement")
		v.Assert(len(s.plans) == i+1, "one query each time")
		v.AssertEqStr(s.cur().Q, q, "the query text")
		ref.Same(s.cur().Params, want, "the parameters")
	}
}

// C08_Pipe: a pipeline of 1..4 queries with parameters of their own, all given on the connection or prepared, for every chunk size: the queries arrive once each, in order, with their own parameters.
func C08_Pipe() {
	s := newServer()
	s.fixed = true
	c := open(s)
	c.SetChunkSize(chunkSizes())
	k := 1 + v.Choose(4)
	var qs []string
	var ps []map[string]interface{}
	var runPull []byte
	for i := 0; i < k; i++ {
		qs = append(qs, string(rune('A'+i))+v.Str(1))
		var p map[string]interface{}
		if i != 2 {
			p = map[string]interface{}{"k" + string(rune('0'+i)): v.Str(1)}
		}
		ps = append(ps, p)
		runPull = append(runPull, 0x10, 0x3F)
	}
	n := len(s.reqs)
	switch v.Choose(4) {
	case 0:
		_, err := c.ExecPipeline(qs, ps...)
		v.Assert(err == nil, "ExecPipeline: succeeds")
	case 1:
		r, err := c.QueryPipeline(qs, ps...)
		v.Assert(err == nil, "QueryPipeline: succeeds")
		v.Assert(r.Close() == nil, "PipelineRows.Close: succeeds")
	case 2:
		st, err := c.PreparePipeline(qs...)
		v.Assert(err == nil, "PreparePipeline: succeeds")
		sent(s, n, nil, "PreparePipeline")
		_, err = st.ExecPipeline(ps...)
		v.Assert(err == nil, "PipelineStmt.ExecPipeline: succeeds")
	case 3:
		st, err := c.PreparePipeline(qs...)
		v.Assert(err == nil, "PreparePipeline: succeeds")
		r, err := st.QueryPipeline(ps...)
		v.Assert(err == nil, "PipelineStmt.QueryPipeline: succeeds")
		v.Assert(r.Close() == nil, "PipelineRows.Close: succeeds")
	}
	sent(s, n, runPull, "a pipeline")
	v.Assert(len(s.plans) == k, "every query runs once")
	for i, p := range s.plans {
		v.AssertEqStr(p.Q, qs[i], "the queries run in order")
		want := ps[i]
		if want == nil {
			want = map[string]interface{}{}
		}
		ref.Same(p.Params, want, "each query has its own parameters")
	}
}

// C08_Many: 13..20 parameters (the size of the map takes one byte or two) of several kinds reach the server unchanged.
func C08_Many() {
	s := newServer()
	s.fixed = true
	c := open(s)
	c.SetChunkSize(chunkSizes())
	n := 13 + v.Choose(8)
	params := map[string]interface{}{}
	for i := 0; i < n; i++ {
		var x interface{} = int64(i)
		switch i {
		case 3:
			x = v.Str(2)
		case 7:
			x = v.Bool()
		case 12:
			x = []interface{}{v.Str(1), nil}
		}
		params["p"+string(rune('a'+i))] = x
	}
	_, err := c.ExecNeo("Q", params)
	v.Assert(err == nil, "ExecNeo: succeeds")
	v.Assert(len(s.plans) == 1, "ExecNeo: one query")
	ref.Same(s.plans[0].Params, params, "the parameters")
}

// C08_Session: the requests of transactions and of closing: Begin, Commit and Rollback send one RUN of their own each, closing sends nothing but what ends the session.
func C08_Session() {
	s := newServer()
	s.fixed = true
	c := open(s)
	v.Assert(len(s.reqs) == 1 && s.reqs[0] == 0x01, "OpenNeo: one INIT")
	c.SetChunkSize(chunkSizes())
	n := len(s.reqs)
	tx, err := c.Begin()
	v.Assert(err == nil, "Begin: succeeds")
	sent(s, n, []byte{0x10, 0x3F}, "Begin")
	v.AssertEqStr(s.plans[0].Q, "BEGIN", "Begin: runs BEGIN")
	ref.Same(s.plans[0].Params, map[string]interface{}{}, "Begin: no parameters")
	n = len(s.reqs)
	if v.Choose(2) == 0 {
		v.Assert(tx.Commit() == nil, "Commit: succeeds")
		v.AssertEqStr(s.plans[1].Q, "COMMIT", "Commit: runs COMMIT")
	} else {
		v.Assert(tx.Rollback() == nil, "Rollback: succeeds")
		v.AssertEqStr(s.plans[1].Q, "ROLLBACK", "Rollback: runs ROLLBACK")
	}
	sent(s, n, []byte{0x10, 0x3F}, "ending a transaction")
	n = len(s.reqs)
	v.Assert(c.Close() == nil, "Close: succeeds")
	sent(s, n, nil, "Close")
}

// C08_Unencodable: parameters that cannot be encoded are refused before anything is sent, whatever call they are given to, and the connection stays usable.
func C08_Unencodable() {
	w := newAny()
	params := map[string]interface{}{v.Str(1): []interface{}{param(0), make(chan int)}}
	q := w.q()
	switch v.Choose(5) {
	case 0:
		w.quiet(func() error { _, err := w.c.ExecNeo(q, params); return err }, "ExecNeo with bad parameters")
	case 1:
		w.quiet(func() error { _, err := w.c.QueryNeo(q, params); return err }, "QueryNeo with bad parameters")
	case 2:
		w.quiet(func() error { _, _, _, err := w.c.QueryNeoAll(q, params); return err }, "QueryNeoAll with bad parameters")
	case 3:
		st, err := w.c.PrepareNeo(q)
		v.Assert(err == nil, "PrepareNeo: succeeds")
		w.quiet(func() error { _, err := st.ExecNeo(params); return err }, "Stmt.ExecNeo with bad parameters")
		v.Assert(st.Close() == nil, "Stmt.Close: succeeds")
	case 4:
		st, err := w.c.PrepareNeo(q)
		v.Assert(err == nil, "PrepareNeo: succeeds")
		w.quiet(func() error { _, err := st.QueryNeo(params); return err }, "Stmt.QueryNeo with bad parameters")
		v.Assert(st.Close() == nil, "Stmt.Close: succeeds")
	}
	w.s.canFail = 0
	w.probe()
}

// C08_Big: queries and parameters around the sizes where their encoding changes (up to 150000 bytes, more than one chunk) reach the server unchanged.
func C08_Big() {
	s := newServer()
	s.fixed = true
	c := open(s)
	n := []int{15, 16, 255, 256, 65520, 65535, 65536, 70000, 150000}[v.Choose(9)]
	b := v.Bytes(4)
	big := make([]byte, n)
	for i := range big {
		big[i] = 'x'
	}
	copy(big, b[:2])
	copy(big[n-2:], b[2:])
	q, val := string(big), interface{}(int64(1))
	if v.Choose(2) == 0 {
		q, val = "Q", string(big)
	}
	_, err := c.ExecNeo(q, map[string]interface{}{"p": val})
	v.Assert(err == nil, "ExecNeo: succeeds")
	v.Assert(len(s.plans) == 1, "ExecNeo: one query")
	v.AssertEqStr(s.plans[0].Q, q, "the query text")
	ref.Same(s.plans[0].Params, map[string]interface{}{"p": val}, "the parameters")
}

// C08_Wide: 255..257 and 400 (thorough: and 66000) parameters, where their number takes another size, and as many elements of a list.
func C08_Wide() {
	s := newServer()
	s.fixed = true
	c := open(s)
	n := []int{255, 256, 257, 400, 66000}[v.Choose(4+v.Tier())]
	params := map[string]interface{}{}
	var list []interface{}
	for i := 0; i < n; i++ {
		k := "p" + string(rune('0'+i%10)) + string(rune('0'+i/10%10)) + string(rune('0'+i/100%10)) + string(rune('0'+i/1000%10)) + string(rune('0'+i/10000))
		if v.Tier() > 0 && n == 66000 {
			list = append(list, int64(i))
			continue
		}
		params[k] = int64(i)
		list = append(list, k)
	}
	params["list"] = list
	params[v.Str(3)] = v.Str(3)
	_, err := c.ExecNeo("Q", params)
	v.Assert(err == nil, "ExecNeo: succeeds")
	v.Assert(len(s.plans) == 1, "ExecNeo: one query")
	ref.Same(s.plans[0].Params, params, "the parameters")
}

// texts are query texts, names and values that something might take for more than text.
func texts() string {
	ts := []string{
		"", " ", "RETURN 1;", "RETURN 1 ; RETURN 2", " RETURN 1", "RETURN 1 ", "RETURN 1\n", "\n\nRETURN 1", "\tRETURN 1\r\n",
		"// c\nRETURN 1", "/* c */ RETURN 1", "RETURN 1 // c", "return {p}", "RETURN $p", "RETURN ?", "RETURN %s %d %v", "RETURN '%'",
		"RETURN 'a''b'", "RETURN \"x\\n\"", "RETURN `a`", "RETURN 'é日本'", "RETURN '\x00'", "RETURN '\xff\xfe'", "\xef\xbb\xbfRETURN 1",
		"EXPLAIN RETURN 1", "CALL db.labels()", "CREATE INDEX ON :L(p)", "RETURN  1   AS  x", "$p", "{p}", ":p", "p.q", "p q", "null", "NULL", "true", "0", "-1", "1e3",
	}
	if k := v.Choose(len(ts) + 1); k < len(ts) {
		return ts[k]
	}
	return v.Str(40)
}

// C08_Texts: query texts, parameter names and string parameters of 40 arbitrary bytes, or with white space, separators, comments, placeholders, quotes, bytes that are no UTF-8 or words with a meaning elsewhere, reach the server as they are, through every call that takes them.
func C08_Texts() {
	s := newServer()
	s.fixed, s.tag = true, "t"
	c := open(s)
	q, params := "Q", map[string]interface{}{"p": int64(1)}
	switch v.Choose(3) {
	case 0:
		q = texts()
	case 1:
		params = map[string]interface{}{texts(): int64(1)}
	case 2:
		params["p"] = texts()
	}
	var err error
	switch v.Choose(4) {
	case 0:
		_, err = c.ExecNeo(q, params)
	case 1:
		_, _, _, err = c.QueryNeoAll(q, params)
	case 2:
		var st bolt.Stmt
		st, err = c.PrepareNeo(q)
		v.Assert(err == nil, "PrepareNeo: succeeds")
		_, err = st.ExecNeo(params)
	case 3:
		_, err = c.ExecPipeline([]string{q}, params)
	}
	v.Assert(err == nil, "the call succeeds")
	v.Assert(len(s.plans) == 1, "one query")
	v.AssertEqStr(s.plans[0].Q, q, "the query text")
	ref.Same(s.plans[0].Params, params, "the parameters")
}

var _ bolt.Conn
