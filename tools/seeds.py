"""The planted bugs: id, property, what they need, what they break, edits, demonstration."""
S = []
def s(id, prop, needs, breaks, edits, main):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main))
E="encoding/encoder.go"; D="encoding/decoder.go"
P="github.com/johnnadratowski/golang-neo4j-bolt-driver"
def go(imports, body):
    names = {"bolt": 'bolt "%s"' % P, "encoding": '"%s/encoding"' % P, "graph": '"%s/structures/graph"' % P,
             "errors": '"%s/errors"' % P, "log": '"%s/log"' % P, "messages": '"%s/structures/messages"' % P}
    return "package main\n\nimport (\n" + "".join("\t" + names.get(i, '"%s"' % i) + "\n" for i in imports) + ")\n\nfunc main() {\n" + body.strip("\n") + "\n}\n"

s("c01-path-sequence", "C01", "a path whose sequence holds an index above 127 (a path through more than 127 distinct nodes)",
  "the sequence of the decoded path differs from that of the encoded one",
  [("structures/graph/path.go", "sequences[i] = sequence", "sequences[i] = int8(sequence)")],
  go(["encoding", "graph", "reflect"], '''
	p := graph.Path{Nodes: []graph.Node{}, Relationships: []graph.UnboundRelationship{}, Sequence: []int{1, 127, -3, 200, 40000}}
	b, err := encoding.Marshal(p)
	check(err == nil, "marshal: %v", err)
	x, err := encoding.Unmarshal(b)
	check(err == nil, "unmarshal: %v", err)
	got, ok := x.(graph.Path)
	check(ok && reflect.DeepEqual(got.Sequence, p.Sequence), "sequence came back as %v", x)
'''))
s("c02-minus-sixteen", "C02", "the integer -16", "-16 is not written in its smallest form (TINY_INT, one byte)",
  [(E, "case val >= math.MinInt8 && val < -16:", "case val >= math.MinInt8 && val <= -16:")],
  go(["encoding", "bytes"], '''
	for i := -16; i < 128; i++ {
		b, err := encoding.Marshal(i)
		check(err == nil && bytes.Equal(b, []byte{0, 1, byte(i), 0, 0}), "%d is written as % x", i, b)
	}
'''))
s("c03-chunk-header", "C03", "one write to the encoder that overfills a chunk that is already partly filled",
  "a chunk's header announces more bytes than the chunk holds",
  [(E, "binary.Write(e.w, binary.BigEndian, e.chunkSize); err", "binary.Write(e.w, binary.BigEndian, uint16(length)); err")],
  go(["encoding", "bytes", "strings"], '''
	var b bytes.Buffer
	s := strings.Repeat("x", 50)
	check(encoding.NewEncoder(&b, 20).Encode(s) == nil, "encode")
	x, err := encoding.NewDecoder(&b).Decode()
	check(err == nil && x == s, "got %v %v", x, err)
	check(b.Len() == 0, "%d bytes left over", b.Len())
'''))
s("c04-big-chunk", "C04", "a server that sends a chunk of 32768 bytes or more",
  "chunks of 32768 bytes and more are cut short and the rest of the stream is misread",
  [(D, "messageLen := binary.BigEndian.Uint16(lengthBytes)", "messageLen := binary.BigEndian.Uint16(lengthBytes) & 0x7fff")],
  go(["encoding", "bytes", "strings"], '''
	for _, n := range []int{100, 32000, 40000, 65000} {
		p := pack(strings.Repeat("y", n))
		b := append(append([]byte{byte(len(p) >> 8), byte(len(p))}, p...), 0, 0)
		x, err := encoding.NewDecoder(bytes.NewBuffer(b)).Decode()
		check(err == nil && x == strings.Repeat("y", n), "string of %d: %v", n, err)
	}
'''))
s("c04-half-header", "C04", "a stream that ends after the first byte of a chunk header",
  "a message cut off inside its end marker is accepted",
  [(D, "numRead != 2 {", "numRead == 0 {")],
  go(["encoding", "bytes"], '''
	whole := []byte{0, 2, 0x81, 'a', 0, 0}
	for n := 0; n <= len(whole); n++ {
		x, err := encoding.NewDecoder(bytes.NewBuffer(whole[:n])).Decode()
		check((err == nil) == (n == len(whole)), "%d of %d bytes: %v %v", n, len(whole), x, err)
	}
'''))
s("c06-short-float", "C06", "a message that ends inside a float", "a truncated float is accepted as 0",
  [(D, "var out float64\n\t\terr := binary.Read(buffer, binary.BigEndian, &out)\n\t\treturn out, err", "var out float64\n\t\tbinary.Read(buffer, binary.BigEndian, &out)\n\t\treturn out, nil")],
  go(["encoding"], '''
	whole := pack(1.5)
	for n := 1; n <= len(whole); n++ {
		b := append(append([]byte{0, byte(n)}, whole[:n]...), 0, 0)
		x, err := encoding.Unmarshal(b)
		check((err == nil) == (n == len(whole)), "%d of %d bytes: %v %v", n, len(whole), x, err)
	}
'''))
s("c07-last-item", "C07", "a list whose last item cannot be encoded", "the item is silently replaced with null and sent",
  [(E, "for _, item := range val {\n\t\tif err := e.encode(item); err != nil {\n\t\t\treturn err\n\t\t}", "for i, item := range val {\n\t\tif err := e.encode(item); err != nil {\n\t\t\tif i < length-1 {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\treturn e.encodeNil()\n\t\t}")],
  go(["encoding", "bytes"], '''
	for _, x := range []interface{}{L{1, make(chan int)}, L{make(chan int), 1}, L{1, L{2, func() {}}}} {
		var b bytes.Buffer
		err := encoding.NewEncoder(&b, 100).Encode([]interface{}(plain(x).([]interface{})))
		check(err != nil && b.Len() == 0, "encoding %v: %v, %d bytes", x, err, b.Len())
	}
}

func plain(x interface{}) interface{} {
	if l, ok := x.(L); ok {
		r := []interface{}{}
		for _, e := range l {
			r = append(r, plain(e))
		}
		return r
	}
	return x
'''))
s("c07-uint64", "C07", "the uint64 2^63 exactly", "an integer above the int64 range is sent as a negative number",
  [(E, "if val > math.MaxInt64 {", "if val > math.MaxInt64+1 {")],
  go(["encoding", "math"], '''
	for _, x := range []uint64{math.MaxInt64 + 1, math.MaxInt64 + 2, math.MaxUint64} {
		_, err := encoding.Marshal(x)
		check(err != nil, "%d was accepted", x)
	}
'''))
s("c08-trailing-newline", "C08", "a query that ends in line breaks", "the server receives another query than the caller gave",
  [("conn.go", "runMessage := messages.NewRunMessage(query, args)", "runMessage := messages.NewRunMessage(strings.TrimRight(query, \"\\n\"), args)")],
  go(["bolt"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{fields: L{"q"}, rows: []L{{q}}} })
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	for _, q := range []string{"RETURN 1", "RETURN 1\\n", ""} {
		d, _, _, err := c.QueryNeoAll(q, nil)
		check(err == nil && len(d) == 1 && d[0][0] == q, "query %q arrived as %v (%v)", q, d, err)
	}
'''))
s("c09-empty-password", "C09", "a connection string with a user and an empty password", "the user never reaches the server: authentication scheme none is sent instead",
  [("structures/messages/init.go", 'if user == "" {', 'if user == "" || password == "" {')],
  go(["bolt", "strings"], '''
	got := make(chan *request, 10)
	sv := listen(func(s *session) {
		got <- s.shake()
		s.serve(func(q string, p M) answer { return answer{} })
	})
	for _, up := range []string{"neo:pass", "neo:"} {
		c, err := bolt.NewDriver().OpenNeo(strings.Replace(sv.url(), "bolt://", "bolt://"+up+"@", 1))
		check(err == nil, "open: %v", err)
		r := <-got
		auth, _ := r.fields[1].(M)
		f := strings.SplitN(up, ":", 2)
		check(auth["principal"] == f[0] && auth["credentials"] == f[1] && auth["scheme"] == "basic", "%s: sent %v", up, auth)
		c.Close()
	}
'''))
s("c10-plain-fallback", "C10", "tls with tls_no_verify and a TLS handshake that fails", "the driver falls back to plain TCP and sends the credentials in the clear",
  [("conn.go", 'conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.url.Host, config)\n\t\tif err != nil {', 'conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.url.Host, config)\n\t\tif c.tlsNoVerify && err != nil {\n\t\t\tconn, err = net.DialTimeout("tcp", c.url.Host, c.timeout)\n\t\t}\n\t\tif nil != err {')],
  go(["bolt", "time", "sync/atomic"], '''
	var plain int32
	sv := listen(func(s *session) {
		b := make([]byte, 4)
		s.SetReadDeadline(time.Now().Add(3 * time.Second))
		s.Read(b)
		if b[0] == 0x60 && b[1] == 0x60 {
			atomic.StoreInt32(&plain, 1)
		}
	})
	_, err := bolt.NewDriver().OpenNeo(sv.url() + "?tls=true&tls_no_verify=true&timeout=3")
	check(err != nil, "opened without TLS")
	time.Sleep(300 * time.Millisecond)
	check(atomic.LoadInt32(&plain) == 0, "the handshake was sent in plain text")
'''))
s("c10-ca-unreadable", "C10", "a CA file that cannot be read", "the connection is made against the system's CAs instead of the configured one",
  [("conn.go", "caCert, err := ioutil.ReadFile(c.caCertFile)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}", "caCert, err := ioutil.ReadFile(c.caCertFile)\n\t\tif err != nil {\n\t\t\tlog.Error(err)\n\t\t\treturn config, nil\n\t\t}")],
  go(["bolt", "time"], '''
	sv := listen(func(s *session) {
		s.SetReadDeadline(time.Now().Add(3 * time.Second))
		s.Read(make([]byte, 4))
	})
	_, err := bolt.NewDriver().OpenNeo(sv.url() + "?tls=1&tls_ca_cert_file=/nonexistent/ca.pem&timeout=3")
	check(err != nil, "opened")
	time.Sleep(300 * time.Millisecond)
	sv.Lock()
	defer sv.Unlock()
	check(len(sv.sessions) == 0, "dialed although the CA file cannot be read")
'''))
s("c11-finished-rows", "C11", "a prepared statement queried again while earlier rows are read to the end but not yet closed",
  "closing the earlier rows closes the later ones, and their rows are lost",
  [("stmt.go", "func (s *boltStmt) queryNeo(params map[string]interface{}) (*boltRows, error) {\n\tif s.closed {\n\t\treturn nil, errors.New(\"Neo4j Bolt statement already closed\")\n\t}\n\tif s.rows != nil {", "func (s *boltStmt) queryNeo(params map[string]interface{}) (*boltRows, error) {\n\tif s.closed {\n\t\treturn nil, errors.New(\"Neo4j Bolt statement already closed\")\n\t}\n\tif s.rows != nil && !s.rows.finishedConsume {")],
  go(["bolt"], """
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{fields: L{q}, rows: []L{{q}, {p["x"]}, {q}}} })
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	st, err := c.PrepareNeo("one")
	check(err == nil, "prepare: %v", err)
	rows, err := st.QueryNeo(map[string]interface{}{"x": 1})
	check(err == nil, "query: %v", err)
	_, _, err = rows.All()
	check(err == nil, "all: %v", err)
	later, err := st.QueryNeo(map[string]interface{}{"x": 2})
	if err == nil {
		check(rows.Close() == nil, "close")
		d, _, err := later.All()
		check(err == nil && len(d) == 3 && d[1][0] == int64(2), "later rows: %v %v", d, err)
	}
	check(rows.Close() == nil && st.Close() == nil, "close")
"""))
s("c12-refused-ack", "C12", "a server that answers ACK_FAILURE with FAILURE", "the session is not reset and stays failed: later queries are ignored",
  [("conn.go", "return c.reset()", "return nil")],
  go(["bolt"], '''
	sv := listen(func(s *session) {
		s.shake()
		failed := false
		for r := s.recv(); r != nil; r = s.recv() {
			switch {
			case r.sig == mReset:
				failed = false
				s.success(M{})
			case r.sig == mAck:
				s.failure("cannot acknowledge")
			case failed:
				s.ignored()
			case r.sig == mRun && r.query == "bad":
				failed = true
				s.failure("bad query")
			case r.sig == mRun:
				s.success(M{"fields": L{"x"}})
			default:
				s.record(7)
				s.success(M{})
			}
		}
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url() + "?timeout=3")
	check(err == nil, "open: %v", err)
	_, err = c.ExecNeo("bad", nil)
	check(err != nil, "bad query succeeded")
	d, _, _, err := c.QueryNeoAll("good", nil)
	check(err == nil && len(d) == 1 && d[0][0] == int64(7), "good query after a failure: %v %v", d, err)
'''))
s("c13-lost-failure", "C13", "a query that fails after the server sent some rows, read with All", "the rows read so far are returned as if they were complete",
  [("rows.go", "if err == io.EOF {\n\t\t\t\treturn output, metadata, nil", "if err == io.EOF || len(output) > 0 {\n\t\t\t\treturn output, metadata, nil")],
  go(["bolt"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{fields: L{"x"}, rows: []L{{1}, {2}}, failPull: q} })
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	d, _, _, err := c.QueryNeoAll("", nil)
	check(err == nil && len(d) == 2, "%v %v", d, err)
	d, _, _, err = c.QueryNeoAll("broken", nil)
	check(err != nil, "a failed stream was returned as complete: %v", d)
'''))
s("c13-empty-record", "C13", "a record without fields, read with All", "the rows after it are lost, without an error",
  [("rows.go", "if err != nil || row == nil {", "if err != nil || len(row) == 0 {")],
  go(["bolt"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{rows: []L{{}, {}, {}}} })
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	d, _, _, err := c.QueryNeoAll("q", nil)
	check(err == nil && len(d) == 3, "%d rows: %v", len(d), err)
'''))
s("c14-extra-params", "C14", "executing a pipeline with more sets of parameters than queries", "the extra parameters are dropped without an error",
  [("stmt.go", "func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, error) {\n\tif s.closed {\n\t\treturn nil, errors.New(\"Neo4j Bolt statement already closed\")\n\t}\n\tif s.rows != nil {\n\t\treturn nil, errors.New(\"Another query is already open\")\n\t}\n\n\tif len(params) != len(s.queries) {", "func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, error) {\n\tif s.closed {\n\t\treturn nil, errors.New(\"Neo4j Bolt statement already closed\")\n\t}\n\tif s.rows != nil {\n\t\treturn nil, errors.New(\"Another query is already open\")\n\t}\n\n\tif len(params) < len(s.queries) {")],
  go(["bolt"], """
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{} })
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url() + "?timeout=3")
	check(err == nil, "open: %v", err)
	for n := 0; n < 5; n++ {
		ps := make([]map[string]interface{}, n)
		r, err := c.ExecPipeline([]string{"a", "b"}, ps...)
		check((err == nil) == (n == 2), "%d sets of parameters for two queries: %v %v", n, r, err)
	}
"""))
s("c15-second-begin", "C15", "Begin while a transaction is open and nothing else is", "a second BEGIN is sent and the first transaction is forgotten",
  [("conn.go", "if c.transaction != nil {\n\t\treturn nil, errors.New(\"An open transaction already exists\")", "if c.transaction != nil && c.statement != nil {\n\t\treturn nil, errors.New(\"An open transaction already exists\")")],
  go(["bolt"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{} })
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	tx, err := c.Begin()
	check(err == nil, "begin: %v", err)
	_, err = c.Begin()
	check(err != nil, "a second transaction was opened")
	check(tx.Commit() == nil, "commit")
	check(sv.get(0).count("RUN BEGIN") == 1, "BEGIN sent more than once")
'''))
s("c15-close-commits", "C15", "closing a connection with a transaction open", "the transaction is committed instead of rolled back",
  [("conn.go", "if c.transaction != nil {\n\t\tif err := c.transaction.Rollback()", "if c.transaction != nil {\n\t\tif err := c.transaction.Commit()")],
  go(["bolt"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{} })
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	_, err = c.Begin()
	check(err == nil, "begin: %v", err)
	check(c.Close() == nil, "close")
	check(eventually(func() bool { return sv.get(0).count("RUN ROLLBACK") == 1 }), "no ROLLBACK: %v", sv.get(0).seen)
	check(sv.get(0).count("RUN COMMIT") == 0, "committed")
'''))
s("c16-prepare-closed", "C16", "preparing a statement on a closed connection", "a statement is handed out, and using it writes to the closed connection",
  [("conn.go", "func (c *boltConn) prepare(query string) (*boltStmt, error) {\n\tif c.statement != nil {\n\t\treturn nil, errors.New(\"An open statement already exists\")\n\t}\n\tif c.closed {\n\t\treturn nil, errors.New(\"Connection already closed\")\n\t}\n", "func (c *boltConn) prepare(query string) (*boltStmt, error) {\n\tif c.statement != nil {\n\t\treturn nil, errors.New(\"An open statement already exists\")\n\t}\n")],
  go(["bolt"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{} })
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	check(c.Close() == nil, "close")
	_, err = c.PrepareNeo("q")
	check(err != nil, "prepared on a closed connection")
	_, err = c.PreparePipeline("q")
	check(err != nil, "prepared on a closed connection")
'''))
s("c19-open-transaction", "C19", "giving a pooled connection back with a transaction open", "the next user gets a connection inside that transaction",
  [("conn.go", "if c.transaction != nil {\n\t\tif err := c.transaction.Rollback()", "if c.transaction != nil && c.poolDriver == nil {\n\t\tif err := c.transaction.Rollback()")],
  go(["bolt"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{} })
	})
	p, err := bolt.NewDriverPool(sv.url(), 1)
	check(err == nil, "pool: %v", err)
	c, err := p.OpenPool()
	check(err == nil, "open: %v", err)
	_, err = c.Begin()
	check(err == nil, "begin: %v", err)
	c.Close()
	c, err = p.OpenPool()
	check(err == nil, "open: %v", err)
	check(sv.get(0).count("RUN ROLLBACK") == 1, "not rolled back: %v", sv.get(0).seen)
	tx, err := c.Begin()
	check(err == nil, "begin of the next user: %v", err)
	check(tx.Rollback() == nil, "rollback")
'''))
s("c20-shared-buffer", "C20", "two connections encoding at the same time", "their messages are mixed up",
  [(E, "buf:       &bytes.Buffer{},", "buf:       encodeBuf,"), (E, "// NewEncoder Creates", "// encodeBuf saves allocating a buffer for every message\nvar encodeBuf = &bytes.Buffer{}\n\n// NewEncoder Creates")],
  go(["bolt", "fmt", "sync", "sync/atomic"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{fields: L{"q"}, rows: []L{{q, p["x"]}}} })
	})
	var bad int32
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					atomic.AddInt32(&bad, 1)
				}
			}()
			c, err := bolt.NewDriver().OpenNeo(sv.url() + "?timeout=5")
			if err != nil {
				atomic.AddInt32(&bad, 1)
				return
			}
			defer c.Close()
			for i := 0; i < 300 && atomic.LoadInt32(&bad) == 0; i++ {
				q := fmt.Sprintf("query %d of %d", i, g)
				d, _, _, err := c.QueryNeoAll(q, map[string]interface{}{"x": int64(g)})
				if err != nil || len(d) != 1 || d[0][0] != q || d[0][1] != int64(g) {
					atomic.AddInt32(&bad, 1)
				}
			}
		}(g)
	}
	wg.Wait()
	check(bad == 0, "%d goroutines saw wrong results", bad)
'''))
s("c22-path-column", "C22", "a path in a row read through database/sql", "reading the row fails instead of delivering the encoded path",
  [("rows.go", "graph.Node, graph.Path, graph.Relationship, graph.UnboundRelationship:", "graph.Node, graph.Relationship, graph.UnboundRelationship:")],
  go(["database/sql", "encoding", "graph", "bolt"], '''
	_ = bolt.Version
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer {
			node := append([]byte{0xB3, 0x4E, 1}, append(pack(L{"A"}), pack(M{})...)...)
			path := append([]byte{0xB3, 0x50}, append(append(pack(L{node}), pack(L{})...), pack(L{})...)...)
			return answer{fields: L{"p"}, rows: []L{{path}}}
		})
	})
	db, err := sql.Open("neo4j-bolt", sv.url())
	check(err == nil, "open: %v", err)
	var b []byte
	st, err := db.Prepare("MATCH p")
	check(err == nil, "prepare: %v", err)
	rows, err := st.Query()
	check(err == nil && rows.Next(), "query: %v %v", err, rows)
	check(rows.Scan(&b) == nil, "scan")
	x, err := encoding.Unmarshal(b)
	check(err == nil, "unmarshal: %v", err)
	pt, ok := x.(graph.Path)
	check(ok && len(pt.Nodes) == 1 && pt.Nodes[0].NodeIdentity == 1, "got %v", x)
'''))
s("c23-stats-type", "C23", "statistics that are not a map", "RowsAffected reports 0 instead of an error",
  [("result.go", "stats, ok := r.metadata[\"stats\"].(map[string]interface{})\n\tif !ok {\n\t\treturn -1, errors.New(\"Unrecognized type for stats metadata: %#v\", r.metadata)\n\t}", "stats, ok := r.metadata[\"stats\"].(map[string]interface{})\n\tif _, list := r.metadata[\"stats\"].([]interface{}); !ok && !list {\n\t\treturn -1, errors.New(\"Unrecognized type for stats metadata: %#v\", r.metadata)\n\t}")],
  go(["bolt"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer {
			if q == "list" {
				return answer{summary: M{"stats": L{1}}}
			}
			return answer{summary: M{"stats": M{"nodes-created": 2}}}
		})
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	r, err := c.ExecNeo("map", nil)
	check(err == nil, "exec: %v", err)
	n, err := r.RowsAffected()
	check(err == nil && n == 2, "rows affected %d %v", n, err)
	r, err = c.ExecNeo("list", nil)
	check(err == nil, "exec: %v", err)
	n, err = r.RowsAffected()
	check(err != nil, "rows affected %d without an error", n)
'''))
s("c24-short-timeout", "C24", "SetTimeout with less than a second", "the setting is ignored and reads wait for the old timeout",
  [("conn.go", "c.timeout = timeout\n}", "if timeout >= time.Second {\n\t\tc.timeout = timeout\n\t}\n}")],
  go(["bolt", "time"], '''
	sv := listen(func(s *session) {
		s.shake()
		for s.recv() != nil {
		}
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url() + "?timeout=30")
	check(err == nil, "open: %v", err)
	c.SetTimeout(200 * time.Millisecond)
	check(within(5*time.Second, func() { _, err = c.ExecNeo("q", nil) }), "no timeout")
	check(err != nil, "no error")
'''))
s("c25-innermost", "C25", "an error wrapped three times or more", "the innermost error is not the first cause",
  [("errors/errors.go", "if inner, ok := e.wrapped.(*Error); ok {\n\t\treturn inner.InnerMost()", "if inner, ok := e.wrapped.(*Error); ok && inner.wrapped != nil {\n\t\treturn inner.Inner()")],
  go(["errors", "io"], '''
	var err error = io.EOF
	for i := 0; i < 5; i++ {
		e := errors.Wrap(err, "level")
		check(e.InnerMost() == io.EOF, "wrapped %d times: innermost is %v", i+1, e.InnerMost())
		check(e.Inner() == err, "inner")
		err = e
	}
'''))
s("c26-unknown-level", "C26", "an unknown level name such as \"warn\"", "logging is switched on instead of off",
  [("log/log.go", 'case "info":\n\t\tlevel = InfoLevel', 'case "info", "warn":\n\t\tlevel = InfoLevel')],
  go(["log", "bytes", "log"], '''
	var b bytes.Buffer
	for _, name := range []string{"none", "warn", "warning", "x", ""} {
		log.SetLevel("trace")
		log.SetLevel(name)
		log.InfoLog.SetOutput(&b)
		log.ErrorLog.SetOutput(&b)
		log.Info("hello")
		log.Error("hello")
		check(b.Len() == 0, "level %q logs: %s", name, b.String())
	}
''').replace('\t"%s/log"\n' % P, '', 1))
s("c05-type-assertion", "C05", "a relationship whose type is not a string, deep in a received value", "the decoder panics on a message with a wrong field type",
  [(D, '''	rel.Type, ok = typeInt.(string)
	if !ok {
		return rel, errors.New("Expected: Type string, but got %T %+v", typeInt, typeInt)
	}

	propertiesInt, err := d.decode(buffer)
	if err != nil {
		return rel, err
	}
	rel.Properties, ok = propertiesInt.(map[string]interface{})
	if !ok {
		return rel, errors.New("Expected: Properties map[string]interface{}, but got %T %+v", propertiesInt, propertiesInt)
	}

	return rel, nil
}

func (d Decoder) decodePath''', '''	if typeInt != nil { // the type may be left out
		rel.Type = typeInt.(string)
	}

	propertiesInt, err := d.decode(buffer)
	if err != nil {
		return rel, err
	}
	rel.Properties, ok = propertiesInt.(map[string]interface{})
	if !ok {
		return rel, errors.New("Expected: Properties map[string]interface{}, but got %T %+v", propertiesInt, propertiesInt)
	}

	return rel, nil
}

func (d Decoder) decodePath''')],
  go(["encoding"], '''
	defer func() {
		p := recover()
		check(p == nil, "decoding panics: %v", p)
	}()
	for _, typ := range []interface{}{"KNOWS", L{}, 5, true, M{}} {
		m := append([]byte{0xB5, 0x52, 1, 2, 3}, pack(typ)...)
		m = append(m, 0xA0)
		_, err := encoding.Unmarshal(append(append([]byte{0, byte(len(m))}, m...), 0, 0))
		check((err == nil) == (typ == "KNOWS"), "type %v: %v", typ, err)
	}
'''))
s("c17-lost-after-success", "C17", "the connection breaks after the answer to RUN and before the first record", "the lost connection is taken for an empty result",
  [("conn.go", '''	if err != nil {
		return respInt, err
	}

	if log.GetLevel() >= log.TraceLevel {
		log.Tracef("Consumed Response: %#v", respInt)''', '''	if err != nil {
		return respInt, c.cause(err)
	}

	if log.GetLevel() >= log.TraceLevel {
		log.Tracef("Consumed Response: %#v", respInt)'''),
   ("conn.go", "func (c *boltConn) consume() (", '''// cause tells the end of the stream from other errors
func (c *boltConn) cause(err error) error {
	if c.connErr != nil && errors.Wrap(c.connErr, "").InnerMost() == io.EOF {
		return io.EOF
	}
	return err
}

func (c *boltConn) consume() (''')],
  go(["bolt", "io"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.recv()
		s.success(M{"fields": L{"x"}})
		s.recv()
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	r, err := c.QueryNeo("Q", nil)
	check(err == nil, "query: %v", err)
	_, _, err = r.NextNeo()
	check(err != nil && err != io.EOF, "the lost connection reads as %v", err)
'''))
s("c18-refused-rollback", "C18", "a connection is closed with an open transaction, and the server refuses the ROLLBACK", "the socket is never closed",
  [("conn.go", '''			closeErr = errors.Wrap(err, "Error rolling back transaction when closing connection")
		}
	}
''', '''			return errors.Wrap(err, "Error rolling back transaction when closing connection")
		}
	}
'''), ("conn.go", "	if c.transaction != nil {\n		if err := c.transaction.Rollback(); err != nil {", "	if tx := c.transaction; tx != nil {\n		if err := tx.Rollback(); err != nil {")],
  go(["bolt", "time"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer {
			if q == "ROLLBACK" {
				return answer{failRun: "Neo.X"}
			}
			return answer{}
		})
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	_, err = c.Begin()
	check(err == nil, "begin: %v", err)
	c.Close()
	for i := 0; i < 100 && sv.isOpen() > 0; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	check(sv.isOpen() == 0, "the socket is still open")
'''))
s("c21-close-in-use", "C21", "a pool is closed while a connection is in use, and the connection is given back afterwards", "the socket is never closed",
  [("driver.go", '''		newConn = &boltConn{}
		*newConn = *conn
		if newConn.conn != nil && !d.swapRef(conn, newConn) {
			newConn.conn.Close()
		}
''', '''		newConn = new(boltConn)
		*newConn = *conn
		if newConn.conn != nil {
			d.swapRef(conn, newConn)
		}
'''), ("driver.go", '''	for _, conn := range d.connRefs {
		// The''', '''	for n := len(d.pool); n > 0; n-- {
		conn := <-d.pool
		d.pool <- conn
		if conn.conn == nil {
			continue
		}
		// The''')],
  go(["bolt", "time"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{} })
	})
	d, err := bolt.NewClosableDriverPool(sv.url(), 2)
	check(err == nil, "pool: %v", err)
	a, err := d.OpenPool()
	check(err == nil, "open: %v", err)
	b, err := d.OpenPool()
	check(err == nil, "open: %v", err)
	check(a.Close() == nil, "give back")
	d.Close()
	b.Close()
	for i := 0; i < 100 && sv.isOpen() > 0; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	check(sv.isOpen() == 0, "%d sockets are still open", sv.isOpen())
'''))
s("c27-row-buffer", "C27", "a row is kept while the next one is read", "rows that were read before change when more is read",
  [("rows.go", "	pipelineIndex   int\n", "	pipelineIndex   int\n	row             []interface{} // the current row\n"),
   ("rows.go", "		return resp.Fields, nil, nil, nil\n", "		r.row = append(r.row[:0], resp.Fields...)\n		return r.row, nil, nil, nil\n")],
  go(["bolt"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{fields: L{"x"}, rows: []L{{1}, {2}, {3}}} })
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	r, err := c.QueryPipeline([]string{"Q"}, nil)
	check(err == nil, "query: %v", err)
	var d []L
	for i := 0; i < 3; i++ {
		row, _, _, err := r.NextPipeline()
		check(err == nil, "next: %v", err)
		d = append(d, row)
	}
	for i := range d {
		check(d[i][0] == int64(i+1), "rows %v", d)
	}
'''))
s("c27-param-types", "C27", "parameters that hold an uint8, looked at again after the call", "the call changes the caller's parameters",
  [("conn.go", "	runMessage := messages.NewRunMessage(query, args)\n", '''	runMessage := messages.NewRunMessage(query, normalize(args))
'''), ("conn.go", "func (c *boltConn) sendRun(query", '''// normalize gives the parameters the types that are decoded on the way back
func normalize(args map[string]interface{}) map[string]interface{} {
	for name, value := range args {
		if _, isMap := value.(map[string]interface{}); isMap {
			continue
		}
		if n, isInt := value.(uint8); isInt {
			args[name] = int64(n)
		}
	}
	return args
}

func (c *boltConn) sendRun(query''')],
  go(["bolt", "reflect"], '''
	sv := listen(func(s *session) {
		s.shake()
		s.serve(func(q string, p M) answer { return answer{} })
	})
	c, err := bolt.NewDriver().OpenNeo(sv.url())
	check(err == nil, "open: %v", err)
	p := map[string]interface{}{"a": uint8(1), "b": nil, "c": "x"}
	_, err = c.ExecNeo("Q", p)
	check(err == nil, "exec: %v", err)
	check(reflect.DeepEqual(p, map[string]interface{}{"a": uint8(1), "b": nil, "c": "x"}), "the parameters are now %#v", p)
'''))
