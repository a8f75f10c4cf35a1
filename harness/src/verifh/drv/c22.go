package drv

import (
	"database/sql"
	"database/sql/driver"
	"io"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"

	"verifh/ref"
	"verifh/v"
)

func sqlOpen(s *Server) driver.Conn {
	dialTo(s)
	c, err := bolt.NewDriver().Open(connStr)
	v.Assert(err == nil, "Open: succeeds")
	return c
}

// sqlRun runs q with args through one of the four ways of database/sql and
// returns the error; rows, when it gives some, are closed.
func sqlRun(c driver.Conn, q string, args []driver.Value) error {
	switch v.Choose(4) {
	case 0:
		_, err := c.(driver.Execer).Exec(q, args)
		return err
	case 1:
		r, err := c.(driver.Queryer).Query(q, args)
		if err == nil {
			v.Assert(r.Close() == nil, "Rows.Close: succeeds")
		}
		return err
	case 2:
		st, err := c.Prepare(q)
		v.Assert(err == nil, "Prepare: succeeds")
		v.Assert(st.NumInput() == -1, "NumInput: unknown")
		_, err = st.Exec(args)
		v.Assert(st.Close() == nil, "Stmt.Close: succeeds")
		return err
	}
	st, err := c.Prepare(q)
	v.Assert(err == nil, "Prepare: succeeds")
	r, err := st.Query(args)
	if err == nil {
		v.Assert(r.Close() == nil, "Rows.Close: succeeds")
	}
	v.Assert(st.Close() == nil, "Stmt.Close: succeeds")
	return err
}

// C22_Args: 0..2 encoded maps given as arguments reach the server as one set of parameters, the later ones winning, through Exec and Query of connections and statements.
func C22_Args() {
	s := newServer()
	s.fixed = true
	c := sqlOpen(s)
	var args []driver.Value
	want := map[string]interface{}{}
	for i := v.Choose(3); i > 0; i-- {
		m := map[string]interface{}{}
		for k := v.Choose(2 + v.Tier()); k > 0; k-- {
			switch v.Choose(3) {
			case 0:
				m["a"+v.Str(1)] = v.Str(1)
			case 1:
				m["a"+v.Str(1)] = v.Bool()
			case 2:
				m["ab"] = []interface{}{int64(v.I8())}
			}
		}
		b, err := encoding.Marshal(m)
		v.Assert(err == nil, "Marshal: succeeds")
		for k, x := range m {
			want[k] = x
		}
		args = append(args, b)
	}
	v.Assert(sqlRun(c, "Q", args) == nil, "the query succeeds")
	v.Assert(len(s.plans) == 1, "the query runs once")
	ref.Same(s.plans[0].Params, want, "the parameters")
	v.Assert(c.Close() == nil, "Close: succeeds")
}

// C22_BadArgs: arguments that are not an encoded map (another type of value, another encoded value, 0..2 arbitrary bytes in a frame that may be cut short) are refused without traffic, and the connection stays usable.
func C22_BadArgs() {
	s := newServer()
	s.fixed = true
	c := sqlOpen(s)
	var a driver.Value
	switch v.Choose(6) {
	case 0:
		a = v.I64()
	case 1:
		a = v.Str(2)
	case 2:
		a = nil
	case 3:
		a = v.Bool()
	case 4:
		b, err := encoding.Marshal(param(0))
		v.Assert(err == nil, "Marshal: succeeds")
		a = b
	case 5:
		p := v.Bytes(v.Concrete(v.Int(0, 2+v.Tier())))
		if x, ok, _ := ref.Dec(p); ok {
			_, isMap := x.(map[string]interface{})
			v.Assume(!isMap)
		}
		b := ref.Frame(p)
		a = b[:len(b)-v.Choose(4)%len(b)]
	}
	n, ops := len(s.reqs), s.ops
	err := sqlRun(c, "Q", []driver.Value{a})
	v.Assert(err != nil, "arguments that are no encoded map are refused")
	v.Assert(len(s.reqs) == n && s.ops == ops, "refused without traffic")
	_, err = c.(driver.Execer).Exec("P", nil)
	v.Assert(err == nil, "the connection stays usable")
}

// C22_MoreArgs: a good argument before or after a bad one is refused as well, without traffic; parameters of one call do not leak into the next.
func C22_MoreArgs() {
	s := newServer()
	s.fixed = true
	c := sqlOpen(s)
	good := map[string]interface{}{"a": v.Str(1)}
	b, err := encoding.Marshal(good)
	v.Assert(err == nil, "Marshal: succeeds")
	var bad driver.Value
	switch v.Choose(4) {
	case 0:
		bad = v.Str(1)
	case 1:
		bad = []byte{}
	case 2:
		bad = v.Bytes(2)
	case 3:
		bad = []byte(nil)
	}
	args := []driver.Value{b, bad}
	if v.Choose(2) == 0 {
		args = []driver.Value{bad, b}
	}
	ops := s.ops
	v.Assert(sqlRun(c, "Q", args) != nil, "arguments that are no encoded map are refused")
	v.Assert(s.ops == ops, "refused without traffic")
	v.Assert(sqlRun(c, "Q", []driver.Value{b}) == nil, "the query succeeds")
	ref.Same(s.cur().Params, good, "the parameters")
	v.Assert(sqlRun(c, "Q", nil) == nil, "the query succeeds")
	ref.Same(s.cur().Params, map[string]interface{}{}, "the parameters of another call are not used")
	v.Assert(len(s.plans) == 2, "every query runs once")
}

// rowValue is a value of a row and whether database/sql gets it encoded.
func rowValue() (interface{}, bool) {
	switch v.Choose(11) {
	case 0:
		return nil, false
	case 1:
		return v.Bool(), false
	case 2:
		return v.I64(), false
	case 3:
		return float64(v.I8()) / 8, false
	case 4:
		return v.Str(2), false
	case 5:
		return []interface{}{param(0)}, true
	case 6:
		return map[string]interface{}{v.Str(1): param(0)}, true
	case 7:
		return graph.Node{NodeIdentity: int64(v.I8()), Labels: []string{v.Str(1)}, Properties: map[string]interface{}{"k": v.Bool()}}, true
	case 8:
		return graph.Relationship{RelIdentity: int64(v.I8()), StartNodeIdentity: 1, EndNodeIdentity: 2, Type: v.Str(1), Properties: map[string]interface{}{}}, true
	case 9:
		return graph.UnboundRelationship{RelIdentity: int64(v.I8()), Type: v.Str(1), Properties: map[string]interface{}{}}, true
	}
	return graph.Path{
		Nodes:         []graph.Node{{NodeIdentity: int64(v.I8()), Labels: []string{}, Properties: map[string]interface{}{}}},
		Relationships: []graph.UnboundRelationship{},
		Sequence:      []int{},
	}, true
}

// C22_Rows: a row of up to two arbitrary values through database/sql: scalars arrive as they are, lists, maps, nodes, relationships and paths as bytes that decode to them; then the end of the rows.
func C22_Rows() {
	s := newServer()
	var want []interface{}
	var coded []bool
	for i := 1 + v.Choose(2); i > 0; i-- {
		x, e := rowValue()
		if len(want) == 1 {
			x, e = v.Str(1), false
		}
		want, coded = append(want, x), append(coded, e)
	}
	s.rec = func(p *Plan, i int) []interface{} { return want }
	s.onPlan = func(p *Plan) { p.N = 1 }
	c := sqlOpen(s)
	r, err := c.(driver.Queryer).Query("Q", nil)
	v.Assert(err == nil, "Query: succeeds")
	dest := make([]driver.Value, len(want))
	v.Assert(r.Next(dest) == nil, "Next: a row")
	for i := range want {
		if !coded[i] {
			ref.Same(dest[i], want[i], "Next: scalar")
			continue
		}
		b, ok := dest[i].([]byte)
		v.Assert(ok, "Next: other values as bytes")
		x, err := encoding.Unmarshal(b)
		v.Assert(err == nil, "Next: bytes that decode")
		ref.Same(x, want[i], "Next: bytes that decode to the value")
	}
	v.Assert(r.Next(dest) == io.EOF, "Next: io.EOF at the end")
	v.Assert(r.Next(dest) == io.EOF, "Next: io.EOF after the end")
	v.Assert(r.Close() == nil, "Rows.Close: succeeds")
}

// C22_ManyRows: three rows of several kinds of values each reach database/sql in order and unchanged, through connections and statements, also when the same destination is used again.
func C22_ManyRows() {
	s := newServer()
	a, b := v.Str(2), v.Bool()
	s.rec = func(p *Plan, i int) []interface{} {
		switch i {
		case 0:
			return []interface{}{a, map[string]interface{}{"k": b}}
		case 1:
			return []interface{}{nil, a}
		}
		return []interface{}{[]interface{}{a, b}, int64(i)}
	}
	s.onPlan = func(p *Plan) { p.N = 3 }
	c := sqlOpen(s)
	var r driver.Rows
	var err error
	if v.Choose(2) == 0 {
		r, err = c.(driver.Queryer).Query("Q", nil)
	} else {
		var st driver.Stmt
		st, err = c.Prepare("Q")
		v.Assert(err == nil, "Prepare: succeeds")
		r, err = st.Query(nil)
	}
	v.Assert(err == nil, "Query: succeeds")
	cols := r.Columns()
	v.Assert(len(cols) == 2, "Columns: as announced")
	var kept [][]driver.Value
	dest := make([]driver.Value, 2)
	for i := 0; i < 3; i++ {
		v.Assert(r.Next(dest) == nil, "Next: a row")
		kept = append(kept, append([]driver.Value{}, dest...))
	}
	v.Assert(r.Next(dest) == io.EOF, "Next: io.EOF at the end")
	for i, row := range kept {
		for k, x := range s.rec(nil, i) {
			switch x.(type) {
			case []interface{}, map[string]interface{}:
				bs, ok := row[k].([]byte)
				v.Assert(ok, "Next: other values as bytes")
				y, err := encoding.Unmarshal(bs)
				v.Assert(err == nil, "Next: bytes that decode")
				ref.Same(y, x, "Next: bytes that decode to the value")
			default:
				ref.Same(row[k], x, "Next: scalar")
			}
		}
	}
	v.Assert(r.Close() == nil, "Rows.Close: succeeds")
}

// C22_Columns: a destination shorter than the row is an error, a longer one is filled from the start; nothing panics.
func C22_Columns() {
	s := newServer()
	n, m := v.Choose(3), v.Choose(4)
	x := v.Str(1)
	s.rec = func(p *Plan, i int) []interface{} {
		r := []interface{}{}
		for i := 0; i < n; i++ {
			r = append(r, x)
		}
		return r
	}
	s.onPlan = func(p *Plan) { p.N = 1 }
	c := sqlOpen(s)
	r, err := c.(driver.Queryer).Query("Q", nil)
	v.Assert(err == nil, "Query: succeeds")
	v.Assert(len(r.Columns()) == 2, "Columns: as announced")
	dest := make([]driver.Value, m)
	err = r.Next(dest)
	if n > m {
		v.Assert(err != nil && err != io.EOF, "Next: a row with too many columns is an error")
	} else {
		v.Assert(err == nil, "Next: a row")
		for i := 0; i < n; i++ {
			ref.Same(dest[i], x, "Next: value")
		}
	}
	v.Assert(r.Close() == nil, "Rows.Close: succeeds")
}

// C22_Tx: transactions and failures through database/sql.
func C22_Tx() {
	s := newServer()
	s.txFail, s.maxRec = true, 1
	c := sqlOpen(s)
	w := &world{s: s, c: c.(bolt.Conn)}
	tx, err := c.Begin()
	if s.Plan("BEGIN").RunFail {
		w.failedWith(err, "BEGIN", "Begin")
		return
	}
	v.Assert(err == nil && s.tx, "Begin: begins")
	s.maxRec = 0
	r, err := c.(driver.Execer).Exec("Q", nil)
	if p := s.Plan("Q"); p.RunFail || p.PullFail {
		w.failedWith(err, "Q", "Exec")
	} else {
		v.Assert(err == nil, "Exec: succeeds")
		id, err := r.LastInsertId()
		v.Assert(err == nil && id == -1, "LastInsertId: -1")
	}
	broken := s.txBroken
	if v.Choose(2) == 0 {
		err = tx.Commit()
		v.Assert(s.commits == 1, "Commit: sent")
		v.Assert((err == nil) == !s.Plan("COMMIT").RunFail, "Commit: the server's answer")
		v.Assert(err != nil || !broken, "Commit: fails after a failure")
	} else {
		err = tx.Rollback()
		v.Assert(s.rollbacks == 1, "Rollback: sent")
		v.Assert((err == nil) == !s.Plan("ROLLBACK").RunFail, "Rollback: the server's answer")
	}
	s.fixed = true
	v.Assert(c.Close() == nil, "Close: succeeds")
	v.Assert(s.closed == 1, "Close: the socket is closed")
}

// viaDB is a database/sql pool over the driver.
type viaDB struct {
	db *sql.DB
	s  *Server // the server reached now
	// what the query going on should give
	arg map[string]interface{}
	row []interface{}
}

func openDB(ss ...*Server) (*viaDB, *int) {
	d := &viaDB{s: ss[0]}
	for _, s := range ss {
		s.rec = func(p *Plan, i int) []interface{} { return []interface{}{int64(i), d.row[0], d.row[1]} }
	}
	n := dialTo(ss...)
	v.InitAll()
	db, err := sql.Open("neo4j-bolt", connStr)
	v.Assert(err == nil, "sql.Open: the driver is registered")
	db.SetMaxOpenConns(1)
	d.db = db
	return d, n
}

// args is what to pass for the parameters of the next query.
func (d *viaDB) args(k int) []interface{} {
	if k == 0 {
		d.arg = map[string]interface{}{}
		return nil
	}
	d.arg = map[string]interface{}{"k": v.Str(1)}
	b, err := encoding.Marshal(d.arg)
	v.Assert(err == nil, "Marshal: succeeds")
	return []interface{}{b}
}

// read reads up to n rows and closes; it returns the first error.
func (d *viaDB) read(r *sql.Rows, p *Plan, n int) error {
	cols, err := r.Columns()
	v.Assert(err == nil && len(cols) == 3 && cols[0] == "a" && cols[1] == "b" && cols[2] == "c", "Columns: as announced")
	i := 0
	for i < n && r.Next() {
		var id, a, b interface{}
		v.Assert(r.Scan(&id, &a, &b) == nil, "Scan: succeeds")
		ref.Same(id, int64(i), "Scan: every row once and in order")
		ref.Same(a, d.row[0], "Scan: value")
		x, ok := b.([]byte)
		v.Assert(ok, "Scan: lists as bytes")
		y, err := encoding.Unmarshal(x)
		v.Assert(err == nil, "Scan: bytes that decode")
		ref.Same(y, d.row[1], "Scan: bytes that decode to the list")
		i++
	}
	if err := r.Err(); err != nil {
		v.Assert(r.Close() == nil || p.PullFail || d.s.faulted, "Rows.Close: succeeds")
		return err
	}
	if i < n {
		v.Assert(i == p.N, "Next: all rows")
		v.Assert(!p.PullFail, "Next: a failure is not the end of the rows")
	}
	return r.Close()
}

// call runs query q in one of the ways of database/sql. Nil means that it succeeded.
func (d *viaDB) call(q string, how int) error {
	switch how {
	case 0, 1:
		r, err := d.db.Exec(q, d.args(how)...)
		if err != nil {
			return err
		}
		id, err := r.LastInsertId()
		v.Assert(err == nil && id == -1, "LastInsertId: -1")
		return nil
	case 2, 3:
		r, err := d.db.Query(q, d.args(1)...)
		if err != nil {
			return err
		}
		return d.read(r, d.s.Plan(q), 9*how-17)
	case 4, 5:
		st, err := d.db.Prepare(q)
		if err != nil {
			return err
		}
		if how == 4 {
			_, err = st.Exec(d.args(1)...)
		} else {
			var r *sql.Rows
			if r, err = st.Query(d.args(1)...); err == nil {
				err = d.read(r, d.s.Plan(q), 9)
			}
		}
		if e := st.Close(); err == nil {
			err = e
		}
		return err
	}
	tx, err := d.db.Begin()
	if err != nil {
		return err
	}
	v.Assert(d.s.tx || d.s.faulted, "Begin: begins")
	if _, err = tx.Exec(q, d.args(1)...); err != nil {
		if e := tx.Rollback(); e != nil {
			v.Assert(d.s.faulted, "Rollback: succeeds")
		}
		return err
	}
	if how == 7 {
		n := d.s.rollbacks
		err = tx.Rollback()
		v.Assert(err != nil || d.s.rollbacks == n+1, "Rollback: rolls back")
		return err
	}
	n := d.s.commits
	err = tx.Commit()
	v.Assert(err != nil || d.s.commits == n+1, "Commit: commits")
	return err
}

// ran is how often query q ran on server s.
func (s *Server) ran(q string) int {
	n := 0
	for _, p := range s.plans {
		if p.Q == q {
			n++
		}
	}
	return n
}

// C22_DB: the same through database/sql itself: the registered driver is opened, and up to two (thorough: three) calls out of Exec, Query, Prepare and Begin, with and without parameters, with rows read to the end or given up, that succeed or fail at the server, all run once on one connection and report what the server answered.
func C22_DB() {
	s := newServer()
	canFail := true
	s.onPlan = func(p *Plan) {
		p.N, p.Fields = 2, []interface{}{"a", "b", "c"}
		if canFail {
			switch v.Choose(3) {
			case 1:
				p.RunFail = true
			case 2:
				p.PullFail = true
			}
		}
	}
	d, dialed := openDB(s)
	for i, q := range []string{"P", "Q", "R"}[:2+v.Tier()] {
		if i == 0 {
			d.row = []interface{}{v.Str(1), []interface{}{v.Bool()}}
		} else {
			d.row = []interface{}{nil, []interface{}{}}
		}
		err := d.call(q, v.Choose(8))
		v.Assert(s.ran(q) == 1, "every query runs once")
		p := s.Plan(q)
		ref.Same(p.Params, d.arg, "the parameters")
		if p.RunFail {
			v.Assert(err != nil, "a failure is reported")
		}
		if err != nil {
			v.Assert(p.RunFail || p.PullFail, "nothing fails unless the server says so")
			canFail = false
		}
		v.Assert(!s.tx, "no transaction is left open")
	}
	v.Assert(d.db.Close() == nil, "DB.Close: succeeds")
	v.Assert(s.closed == 1, "the socket is closed")
	v.Assert(*dialed == 1, "one connection serves all calls")
}

// C22_DBFault: the same when the transport breaks at an arbitrary operation of the first connection: the calls after the one that meets the fault are served by a new connection, and no query runs twice.
func C22_DBFault() {
	s, s2 := newServer(), newServer()
	s.onPlan = func(p *Plan) { p.N, p.Fields = 2, []interface{}{"a", "b", "c"} }
	s2.onPlan = s.onPlan
	d, _ := openDB(s, s2)
	d.row = []interface{}{v.Str(1), []interface{}{}}
	if v.Choose(2) == 1 {
		v.Assert(d.call("O", 2) == nil, "the first call succeeds")
	}
	s.faultOp = s.ops + v.Int(0, 30)
	s.fault = v.Choose(7)
	err := d.call("P", v.Choose(8))
	v.Assert(err == nil || s.faulted, "nothing fails unless the transport does")
	v.Assert(s.ran("P")+s2.ran("P") <= 1, "a query runs at most once")
	v.Assume(s.faulted)
	v.Reach("faulted")
	d.s = s2
	// through connections and statements; quick does not read rows
	err = d.call("Q", v.Choose(4+4*v.Tier())*(2-v.Tier()))
	v.Assert(err == nil, "a connection that broke is not used again")
	v.Assert(s.ran("Q") == 0 && s2.ran("Q") == 1, "the next query runs once, on a new connection")
	v.Assert(s.closed == 1, "the connection that broke is closed")
	v.Assert(d.db.Close() == nil, "DB.Close: succeeds")
	v.Assert(s2.closed == 1, "the socket is closed")
}

// C22_DBCodes: any call through database/sql refused with one of the codes servers use, or with one of 40 arbitrary bytes: the query runs once, the failure is reported, and the connection serves the next call.
func C22_DBCodes() {
	s := newServer()
	s.tag = "t"
	m := map[string]interface{}{"message": "m"}
	if k := v.Choose(len(codes) + 1); k < len(codes) {
		m["code"] = codes[k]
	} else {
		m["code"] = v.Str(40)
	}
	s.failWith = m
	pull := v.Choose(2) == 1
	s.onPlan = func(p *Plan) {
		p.N, p.Fields = 1, []interface{}{"a", "b", "c"}
		p.RunFail = p.Q == "P" && !pull
		p.PullFail = p.Q == "P" && pull
	}
	d, dialed := openDB(s)
	d.row = []interface{}{"r", []interface{}{}}
	err := d.call("P", v.Choose(8))
	v.Assert(s.ran("P") == 1, "every query runs once")
	v.Assert(err != nil || pull, "a failure is reported")
	v.Assert(d.call("Q", v.Choose(8)) == nil, "the next call succeeds")
	v.Assert(s.ran("P") == 1 && s.ran("Q") == 1, "every query runs once")
	v.Assert(d.db.Close() == nil, "DB.Close: succeeds")
	v.Assert(s.closed == 1, "the socket is closed")
	v.Assert(*dialed == 1, "one connection serves all calls")
}
