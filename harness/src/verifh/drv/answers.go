package drv

import (
	"database/sql/driver"
	"io"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"verifh/ref"
	"verifh/v"
)

// long makes every query give n records of a few bytes each.
func (w *world) long(n int) {
	w.s.tag = "t"
	w.s.onPlan = func(p *Plan) { p.N = n }
}

// C11_Long: 1100 (thorough 4000) records are left unread by any way of giving them up: closing the rows, the statement, the pipeline or the connection, ending the transaction, or executing the query; later queries get their own answers.
func C11_Long() {
	w := newWorld()
	w.long(1100 + 2900*v.Tier())
	end := func(commit bool) func() {
		return func() {
			w.begin()
			w.query()
			w.next()
			w.end(commit)
		}
	}
	ways := []func(){
		w.exec,
		func() { w.query(); w.rowsClose() },
		func() { w.query(); w.next(); w.next(); w.rowsClose() },
		func() { w.prepare(); w.stmtExec(); w.stmtQuery(); w.stmtClose() },
		func() { w.query(); w.connClose() },
		end(true), end(false),
		w.execPipeline,
		func() { w.queryPipeline(); w.pnext(); w.prowsClose() },
	}
	ways[v.Choose(len(ways))]()
	w.s.onPlan = nil
	w.probe()
}

// C13_Long: 1100 (thorough 4000) records reach the caller, each once and in order, through NextNeo, All, QueryNeoAll and a pipeline, arriving as they are or in small pieces.
func C13_Long() {
	w := newWorld()
	n := 1100 + 2900*v.Tier()
	w.long(n)
	w.s.frag = []int{0, 1000}[v.Choose(2)]
	switch v.Choose(5) {
	case 0:
		w.query()
		for !w.ended {
			w.next()
		}
		w.rowsClose()
	case 1:
		w.query()
		w.next()
		w.all()
		w.rowsClose()
	case 2:
		w.queryAll()
	case 3:
		w.prepare()
		w.stmtQuery()
		w.all()
		w.rowsClose()
		w.stmtClose()
	case 4:
		r, err := w.c.QueryPipeline([]string{"Q"}, nil)
		v.Assert(err == nil, "QueryPipeline: succeeds")
		for i := 0; i < n; i++ {
			row, _, _, err := r.NextPipeline()
			v.Assert(err == nil, "NextPipeline: a row")
			w.checkRow(row, "Q", i, "NextPipeline: row")
		}
		row, _, nx, err := r.NextPipeline()
		v.Assert(row == nil && nx == nil && (err == nil || err == io.EOF), "NextPipeline: the end")
		v.Assert(r.Close() == nil, "PipelineRows.Close: succeeds")
	}
	w.s.onPlan = nil
	w.probe()
}

// known are entries servers put in the metadata of a success.
var known = []string{
	"type", "stats", "notifications", "plan", "profile", "bookmark", "result_available_after",
	"result_consumed_after", "t_first", "t_last", "rows", "server", "version", "credentials_expired",
	"connection_id", "db", "has_more", "qid", "code", "message", "error", "count", "limit",
}

// C11_Answers: every success of the session carries one more entry, of a name servers use, with a number, a truth value, null, text, a list or a map; any call of the API, refused or not, on connections of drivers and pools: it reports what the server answered, all of it, and so do later calls.
func C11_Answers() {
	w := &world{s: newServer()}
	w.s.more = entry()
	w.s.tag = "t"
	w.s.maxRec = 1
	if v.Tier() == 0 {
		w.s.onPlan = func(p *Plan) { p.N = 1 }
	}
	w.c = open(w.s)
	w.s.txFail = true
	w.sticky = true
	w.anyCall()
	w.probe()
}

// entry is one entry of metadata, of a name servers use.
func entry() map[string]interface{} {
	k := v.Choose(len(known))
	var x interface{}
	switch v.Choose(7) {
	case 0:
		x = int64(v.I8())
	case 1:
		x = v.Bool()
	case 2:
		x = nil
	case 3:
		x = []string{"r", "rw", "w", "s", "Neo4j/3.1.0"}[v.Choose(5)]
	case 4:
		x = []interface{}{map[string]interface{}{"code": "Neo.ClientNotification.Statement.CartesianProductWarning", "severity": "WARNING", "title": "t"}}
	case 5:
		x = map[string]interface{}{"nodes-created": int64(1), "contains-updates": true}
	case 6:
		x = []interface{}{}
	}
	return map[string]interface{}{known[k]: x}
}

// C15_Answers: two transactions after each other, with a query in and after each, on a session whose successes carry one more entry of a name servers use: each begins and ends once, by the requests that do it and no parameters, and carries the caller's query as it is.
func C15_Answers() {
	w := &world{s: newServer()}
	w.s.more = entry()
	w.s.tag, w.s.fixed = "t", true
	w.s.onPlan = func(p *Plan) { p.N = 1 }
	w.c = open(w.s)
	for i := 0; i < 2; i++ {
		w.begin()
		w.exec()
		w.end(v.Choose(2) == 1)
		w.query()
		w.all()
		w.rowsClose()
	}
	v.Assert(w.s.begins == 2 && w.s.commits+w.s.rollbacks == 2, "each transaction begins and ends once")
	w.probe()
}

// C09_Answers: INIT is answered with success and one more entry of a name servers use, on connections of drivers and pools: the connection is established, works and can be opened again.
func C09_Answers() {
	s := newServer()
	s.initResp = ref.Enc(nil, messages.NewSuccessMessage(entry()))
	s.fixed = true
	dialTo(s)
	var c bolt.Conn
	var err error
	switch v.Choose(2) {
	case 0:
		c, err = bolt.NewDriver().OpenNeo(connStr)
	case 1:
		p, e := bolt.NewDriverPool(connStr, 1)
		v.Assert(e == nil, "NewDriverPool: succeeds")
		c, err = p.OpenPool()
		if err == nil {
			v.Assert(c.Close() == nil, "the connection can be closed")
			c, err = p.OpenPool()
		}
	}
	v.Assert(err == nil, "INIT answered with success: the connection is established")
	_, err = c.ExecNeo("Q", nil)
	v.Assert(err == nil, "the connection works")
	v.Assert(s.closed == 0, "the connection is open")
	v.Assert(c.Close() == nil, "the connection can be closed")
}

// C09_Texts: users and passwords that look like something else (escapes, URLs, numbers, words, parts of the connection string, or 3 arbitrary bytes) reach the server unchanged.
func C09_Texts() {
	texts := []string{
		"%41", "%25", "%zz", "%", "a%2Fb", "a+b", "a b", "@", ":", "/", "?", "#", "a:b", "a@b", "a@b:7", "x?timeout=5", "null", "none",
		"neo4j", "0", "-1", "true", "<nil>", "é", "日本", "\x00", "'", "\"", "\\", "$p", "{p}", " ", "\n", "A", "basic", v.Str(3),
	}
	user, pass := "u", texts[v.Choose(len(texts))]
	if v.Choose(2) == 1 {
		user, pass = pass, "p"
	}
	s := newServer()
	s.fixed = true
	dialTo(s)
	_, err := bolt.NewDriver().OpenNeo("bolt://" + escape(user) + ":" + escape(pass) + "@host:7687")
	v.Assert(err == nil, "OpenNeo: succeeds")
	f, ok := ref.Fields(s.initMsg[2:], 2)
	v.Assert(ok, "INIT fields")
	ref.Same(f[1], map[string]interface{}{"scheme": "basic", "principal": user, "credentials": pass}, "INIT token")
}

// codes are failure codes servers use.
var codes = []string{
	"Neo.ClientError.Statement.SyntaxError",
	"Neo.ClientError.Statement.SemanticError",
	"Neo.ClientError.Schema.ConstraintValidationFailed",
	"Neo.ClientError.Security.Unauthorized",
	"Neo.ClientError.Security.AuthorizationExpired",
	"Neo.ClientError.Security.CredentialsExpired",
	"Neo.ClientError.Security.Forbidden",
	"Neo.ClientError.Transaction.TransactionNotFound",
	"Neo.ClientError.Transaction.TransactionTimedOut",
	"Neo.ClientError.Request.Invalid",
	"Neo.ClientError.Cluster.NotALeader",
	"Neo.ClientError.General.ForbiddenOnReadOnlyDatabase",
	"Neo.ClientNotification.Statement.CartesianProductWarning",
	"Neo.TransientError.Transaction.DeadlockDetected",
	"Neo.TransientError.Transaction.Terminated",
	"Neo.TransientError.Transaction.LockClientStopped",
	"Neo.TransientError.General.DatabaseUnavailable",
	"Neo.DatabaseError.General.UnknownError",
	"Neo.DatabaseError.Transaction.TransactionCommitFailed",
	"",
}

// C12_Codes: any call of the API refused with one of the codes servers use, or with one of 40 arbitrary bytes (thorough: and an arbitrary message): it is reported and acknowledged once, nothing is run again, and later calls get their own answers.
func C12_Codes() {
	w := newWorld()
	w.s.tag = "t"
	w.s.maxRec = 0
	w.s.txFail = true
	m := map[string]interface{}{"message": "m"}
	if k := v.Choose(len(codes) + 1); k < len(codes) {
		m["code"] = codes[k]
	} else {
		m["code"] = v.Str(40)
		if v.Tier() > 0 {
			m["message"] = v.Str(40)
		}
	}
	w.s.failWith = m
	w.sticky = true
	w.anyCall()
	v.Assert(w.s.acks == w.s.failures, "every failure is acknowledged once")
	v.Assert(w.s.resets == 0, "the session is not reset")
	w.probe()
}

// C15_Texts: queries that look like the requests of a transaction (their text begins, ends with or holds such a word) inside and outside a transaction are ordinary queries: the transaction stays as it is.
func C15_Texts() {
	w := newWorld()
	w.s.maxRec, w.s.tag = 1, "t"
	texts := []string{
		"CREATE (n:COMMIT)", "MATCH (n:Begin) RETURN n", "COMMIT_LOG", "BEGINS", "ROLLBACK_LOG",
		"RETURN 'COMMIT'", "RETURN \"ROLLBACK\"", "// COMMIT\nRETURN 1", "commitment", "RETURN 1 AS begin", "",
		"USING PERIODIC COMMIT 500 LOAD CSV FROM 'f' AS l RETURN l", "EXPLAIN RETURN 1", "PROFILE RETURN 1", v.Str(4),
	}
	q := texts[v.Choose(len(texts))]
	in := v.Choose(2) == 1
	if in {
		w.begin()
	}
	b := w.s.begins
	var err error
	var res bolt.Result
	switch v.Choose(3) {
	case 0:
		res, err = w.c.ExecNeo(q, nil)
		w.checkResult(res, err, q, "ExecNeo")
	case 1:
		_, _, _, err = w.c.QueryNeoAll(q, nil)
		p := w.ran(q, "QueryNeoAll")
		if p.RunFail || p.PullFail {
			w.failedWith(err, q, "QueryNeoAll")
		} else {
			v.Assert(err == nil, "QueryNeoAll: succeeds")
		}
	case 2:
		rs, err := w.c.ExecPipeline([]string{q, "Q2"}, nil, nil)
		w.checkPipeResults(rs, err, []string{q, "Q2"}, "ExecPipeline")
	}
	v.Assert(w.s.begins == b && w.s.commits == 0 && w.s.rollbacks == 0, "the transactions the caller asked for")
	v.Assert(w.s.tx == in, "the transaction stays open")
	w.s.canFail = 0
	if in && !w.s.txBroken {
		w.end(v.Choose(2) == 1)
	}
	w.probe()
}

// C13_Names: columns named by 8..12 arbitrary bytes, twice the same name, or names with prefixes, dots, case and quotes: the caller gets exactly those.
func C13_Names() {
	w := newWorld()
	w.s.tag = "t"
	sets := [][]interface{}{
		{"n", "n"}, {"n", "n", "n"}, {"n.name", "m.name"}, {"N", "n"}, {"`a b`", "a"}, {"count(*)", "sum(n.x)"},
		{"", ""}, {" a", "a "}, {"a.b.c", "x AS y"}, {"\"q\"", "'q'"}, {"é", "日本"}, {"_", "0"},
		{v.Str(8), v.Str(8)}, {v.Str(12)},
	}
	names := sets[v.Choose(len(sets))]
	w.s.onPlan = func(p *Plan) { p.N, p.Fields = 1, names }
	var got []string
	switch v.Choose(3) {
	case 0:
		r, err := w.c.QueryNeo("Q", nil)
		v.Assert(err == nil, "QueryNeo: succeeds")
		got = r.Columns()
		v.Assert(r.Close() == nil, "Rows.Close: succeeds")
	case 1:
		st, err := w.c.PrepareNeo("Q")
		v.Assert(err == nil, "PrepareNeo: succeeds")
		r, err := st.QueryNeo(nil)
		v.Assert(err == nil, "Stmt.QueryNeo: succeeds")
		got = r.Columns()
		v.Assert(st.Close() == nil, "Stmt.Close: succeeds")
	case 2:
		r, err := w.c.QueryPipeline([]string{"Q", "Q2"}, nil, nil)
		v.Assert(err == nil, "QueryPipeline: succeeds")
		v.Assert(len(r.Columns()) == len(names), "Columns: number")
		for i := 0; i < 2; i++ {
			_, _, nx, err := r.NextPipeline()
			v.Assert(err == nil, "NextPipeline: succeeds")
			if nx != nil {
				r = nx
			}
		}
		got = r.Columns()
		v.Assert(r.Close() == nil, "PipelineRows.Close: succeeds")
	}
	v.Assert(len(got) == len(names), "Columns: number")
	for i := range got {
		v.AssertEqStr(got[i], names[i].(string), "Columns: the names the server announced")
	}
	w.s.onPlan = nil
	w.probe()
}

// names are names of parameters with a meaning elsewhere.
var names = []string{
	"props", "params", "parameters", "data", "batch", "rows", "map", "args", "id", "_id", "name", "type", "limit", "skip",
	"tx", "mode", "db", "bookmarks", "timeout", "value", "nil", "0", "1", "query", "statement", "", "a.b", "$p", "{p}",
}

// named is one parameter, of a name with a meaning elsewhere and a value of any kind.
func named() map[string]interface{} {
	n := names[v.Choose(len(names))]
	var x interface{}
	switch v.Choose(8) {
	case 0:
		x = map[string]interface{}{"k": v.Str(1), "m": map[string]interface{}{n: int64(1)}}
	case 1:
		x = map[string]interface{}{}
	case 2:
		x = map[string]interface{}{n: v.Bool()}
	case 3:
		x = []interface{}{map[string]interface{}{"k": int64(v.I8())}, map[string]interface{}{}}
	case 4:
		x = []interface{}{}
	case 5:
		x = nil
	case 6:
		x = v.Str(1)
	case 7:
		x = int64(v.I8())
	}
	p := map[string]interface{}{n: x}
	if v.Choose(2) == 1 {
		p["other"] = int64(2)
	}
	return p
}

// C08_Named: one or two parameters, of names with a meaning elsewhere and values of any kind (nested maps and lists, empty ones, null), reach the server as they are, through every call that takes them.
func C08_Named() {
	w := newWorld()
	w.s.fixed, w.s.tag = true, "t"
	params := named()
	var err error
	switch v.Choose(5) {
	case 0:
		_, err = w.c.ExecNeo("Q", params)
	case 1:
		_, _, _, err = w.c.QueryNeoAll("Q", params)
	case 2:
		var st bolt.Stmt
		st, err = w.c.PrepareNeo("Q")
		v.Assert(err == nil, "PrepareNeo: succeeds")
		_, err = st.QueryNeo(params)
	case 3:
		_, err = w.c.ExecPipeline([]string{"Q", "Q"}, params, params)
	case 4:
		w.begin()
		_, err = w.c.ExecNeo("Q", params)
	}
	v.Assert(err == nil, "the call succeeds")
	n := 0
	for _, p := range w.s.plans {
		if p.Q == "Q" {
			ref.Same(p.Params, params, "the parameters")
			n++
		}
	}
	v.Assert(n > 0, "the query runs")
}

// C22_Named: the same parameters, given as encoded maps (one map, or each parameter in its own) to Exec and Query of connections and statements, reach the server as they are.
func C22_Named() {
	s := newServer()
	s.fixed = true
	c := sqlOpen(s)
	params := named()
	var args []driver.Value
	enc := func(m map[string]interface{}) {
		b, err := encoding.Marshal(m)
		v.Assert(err == nil, "Marshal: succeeds")
		args = append(args, b)
	}
	if v.Choose(2) == 0 {
		enc(params)
	} else {
		for k, x := range params {
			enc(map[string]interface{}{k: x})
		}
	}
	v.Assert(sqlRun(c, "Q", args) == nil, "the query succeeds")
	v.Assert(len(s.plans) == 1, "the query runs once")
	ref.Same(s.plans[0].Params, params, "the parameters")
	v.Assert(c.Close() == nil, "Close: succeeds")
}

// C11_Session: the same piece of work is done 300 (thorough 1000) times on one connection (queries, statements, pipelines or transactions; all of them succeeding, all of them refused when run or when pulled, or every third): every time it reports what the server answered.
func C11_Session() {
	w := newWorld()
	w.s.tag = "t"
	w.s.txFail = false
	mode, k := v.Choose(4), 0
	w.s.onPlan = func(p *Plan) {
		k++
		p.N = 1
		switch mode {
		case 1:
			p.RunFail = true
		case 2:
			p.PullFail = true
		case 3:
			p.RunFail = k%3 == 0
		}
	}
	work := []func(){
		w.exec,
		func() { w.query(); w.rowsClose() },
		func() { w.query(); w.all(); w.rowsClose() },
		w.queryAll,
		func() { w.prepare(); w.stmtExec(); w.stmtQuery(); w.next(); w.stmtClose() },
		w.execPipeline,
		func() { w.queryPipeline(); w.pnext(); w.prowsClose() },
		func() { w.preparePipeline(); w.pstmtExec(); w.pstmtQuery(); w.stmtClose() },
		func() { w.begin(); w.exec(); w.end(true) },
		func() { w.begin(); w.query(); w.end(false) },
	}
	f := work[v.Choose(len(work))]
	for i := 300 + 700*v.Tier(); i > 0; i-- {
		w.s.plans, w.used = nil, nil
		f()
	}
	w.s.onPlan, w.s.fixed = nil, true
	w.probe()
}

// C13_Answers: 3 records are read in any way, on a session whose successes carry one more entry of a name servers use: each of them reaches the caller.
func C13_Answers() {
	w := &world{s: newServer()}
	w.s.more = entry()
	w.s.tag = "t"
	w.s.onPlan = func(p *Plan) { p.N = 3 }
	w.c = open(w.s)
	switch v.Choose(5) {
	case 0:
		w.query()
		for i := 0; i < 4; i++ {
			w.next()
		}
		w.rowsClose()
	case 1:
		w.query()
		w.next()
		w.all()
		w.rowsClose()
	case 2:
		w.queryAll()
	case 3:
		w.prepare()
		w.stmtQuery()
		w.all()
		w.stmtClose()
	case 4:
		w.queryPipeline()
		for i := 0; i < 8; i++ {
			w.pnext()
		}
		w.prowsClose()
	}
	w.s.onPlan, w.s.fixed = nil, true
	w.probe()
}

// C14_Equal: pipelines of 2..6 queries that are all the same, or alternate, with parameters that are the same, differ or are missing: each of them runs with its own parameters and gives its own result or rows, by ExecPipeline, QueryPipeline and statements.
func C14_Equal() {
	w := newWorld()
	w.s.fixed, w.s.tag = true, "t"
	n := 2 + v.Choose(5)
	var qs []string
	var ps []map[string]interface{}
	kind, pk := v.Choose(2), v.Choose(4)
	for i := 0; i < n; i++ {
		q := "Q"
		if kind == 1 && i%2 == 1 {
			q = "R"
		}
		qs = append(qs, q)
		var p map[string]interface{}
		switch pk {
		case 1:
			p = map[string]interface{}{"p": int64(1)}
		case 2:
			p = map[string]interface{}{"p": int64(i)}
		case 3:
			if i%2 == 0 {
				p = map[string]interface{}{}
			}
		}
		ps = append(ps, p)
	}
	var rs []bolt.Result
	var r bolt.PipelineRows
	var err error
	switch v.Choose(4) {
	case 0:
		rs, err = w.c.ExecPipeline(qs, ps...)
	case 1:
		r, err = w.c.QueryPipeline(qs, ps...)
	case 2, 3:
		st, e := w.c.PreparePipeline(qs...)
		v.Assert(e == nil, "PreparePipeline: succeeds")
		if v.Choose(2) == 0 {
			rs, err = st.ExecPipeline(ps...)
		} else {
			r, err = st.QueryPipeline(ps...)
		}
	}
	v.Assert(err == nil, "the pipeline succeeds")
	v.Assert(len(w.s.plans) == n, "each query runs once")
	for i, p := range w.s.plans {
		v.AssertEqStr(p.Q, qs[i], "the query")
		want := ps[i]
		if want == nil {
			want = map[string]interface{}{}
		}
		ref.Same(p.Params, want, "the parameters")
	}
	if r == nil {
		v.Assert(len(rs) == n, "a result for each query")
	} else {
		for i := 0; i < n; i++ {
			row, _, _, err := r.NextPipeline()
			v.Assert(err == nil, "NextPipeline: a row")
			w.checkRow(row, qs[i], 0, "NextPipeline: row")
			row, _, nx, err := r.NextPipeline()
			v.Assert(row == nil && (nx != nil) == (i < n-1) && (err == nil || nx == nil && err == io.EOF), "NextPipeline: the end of a query's rows")
			if nx != nil {
				r = nx
			}
		}
		v.Assert(r.Close() == nil, "PipelineRows.Close: succeeds")
	}
}
