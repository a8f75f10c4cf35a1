"""Small realistic bugs, written from the properties' texts and the code."""
M = []
def m(id, props, *edits):
    M.append(dict(id=id, props=props.split(), edits=list(edits)))
E="encoding/encoder.go"; D="encoding/decoder.go"

# --- encoding
m("path-seq-int8", "C01 C02", ("structures/graph/path.go", "sequences[i] = sequence", "sequences[i] = int8(sequence)"))
m("path-seq-decode32", "C01 C06", ("encoding/util.go", "to[idx] = int(toItem)", "to[idx] = int(int32(toItem))"))
m("uint32-as-int32", "C01", (E, "case uint32:\n\t\terr = e.encodeInt(int64(val))", "case uint32:\n\t\terr = e.encodeInt(int64(int32(val)))"))
m("tiny-minus16", "C02", (E, "val < -16:", "val <= -16:"))
m("map-drops-nil", "C01 C02", (E, "for k, v := range val {\n", "for k, v := range val {\n\t\tif v == nil && length > 15 {\n\t\t\tv = \"\"\n\t\t}\n"))
m("slice16-len", "C01 C02", (E, "case length > math.MaxUint8 && length <= math.MaxUint16:\n\t\tif _, err := e.Write([]byte{Slice16Marker}); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tif err := binary.Write(e, binary.BigEndian, int16(length))", "case length > math.MaxUint8 && length <= math.MaxUint16+1:\n\t\tif _, err := e.Write([]byte{Slice16Marker}); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tif err := binary.Write(e, binary.BigEndian, int16(length))"))
m("struct8-boundary", "C02", (E, "case length <= 15:\n\t\tif _, err := e.Write([]byte{byte(TinyStructMarker + length)})", "case length <= 16:\n\t\tif _, err := e.Write([]byte{byte(TinyStructMarker + length)})"))
m("chunk-header-len", "C03", (E, "binary.Write(e.w, binary.BigEndian, e.chunkSize); err", "binary.Write(e.w, binary.BigEndian, uint16(length)); err"))
m("chunk-gt", "C03", (E, "EndMessage = []byte{byte(0x00), byte(0x00)}", "EndMessage = []byte{byte(0x00), byte(0x00)}"),("encoding/encoder.go","_, err := e.w.Write(EndMessage)\n\tif err != nil {","var err error\n\tif e.chunkSize != 1 {\n\t\t_, err = e.w.Write(EndMessage)\n\t}\n\tif err != nil {"))
m("chunk-mask", "C04", (D, "messageLen := binary.BigEndian.Uint16(lengthBytes)", "messageLen := binary.BigEndian.Uint16(lengthBytes) & 0x7fff"))
m("header-short", "C04 C17", (D, "numRead != 2 {", "numRead == 0 {"))
m("leading-noop", "C06 C04", (D, "if messageLen == 0 {", "if messageLen == 0 && output.Len() > 0 {"))
m("tinystr-e", "C06 C01", (D, "case marker >= TinyStringMarker && marker <= TinyStringMarker+0x0F:", "case marker >= TinyStringMarker && marker < TinyStringMarker+0x0F:"))
m("rel-swap", "C01 C02", ("structures/graph/relationship.go", "r.StartNodeIdentity, r.EndNodeIdentity", "r.EndNodeIdentity, r.StartNodeIdentity"))
m("uint64-wrap", "C07", (E, "if val > math.MaxInt64 {", "if val > math.MaxInt64+1 {"))
m("slice-skip-bad", "C07", (E, "for _, item := range val {\n\t\tif err := e.encode(item); err != nil {\n\t\t\treturn err\n\t\t}", "for i, item := range val {\n\t\tif err := e.encode(item); err != nil {\n\t\t\tif i < length-1 {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\treturn e.encodeNil()\n\t\t}"))
m("arrays-ok", "C07", (E, "if reflect.TypeOf(iVal).Kind() == reflect.Slice {", "if k := reflect.TypeOf(iVal).Kind(); k == reflect.Slice || k == reflect.Map {"))
m("int64-min", "C01 C02", (E, "case val >= math.MinInt64 && val < math.MinInt32:", "case val > math.MinInt64 && val < math.MinInt32:"))
m("int16-dec", "C06 C01", (D, "var out int16\n\t\terr := binary.Read(buffer, binary.BigEndian, &out)\n\t\treturn int64(out), err", "var out int16\n\t\terr := binary.Read(buffer, binary.BigEndian, &out)\n\t\tif out == -129 {\n\t\t\tout = -128\n\t\t}\n\t\treturn int64(out), err"))
m("mapkey-dup", "C06", (D, "mapp[key] = val\n", "if _, dup := mapp[key]; !dup {\n\t\t\tmapp[key] = val\n\t\t}\n"))
m("unknown-marker-nil", "C06", (D, 'default:\n\t\treturn nil, errors.New("Unrecognized marker byte!: %x", marker)', 'case marker >= 0xE0:\n\t\treturn nil, nil\n\tdefault:\n\t\treturn nil, errors.New("Unrecognized marker byte!: %x", marker)'))
m("float-err-lost", "C06", (D, "var out float64\n\t\terr := binary.Read(buffer, binary.BigEndian, &out)\n\t\treturn out, err", "var out float64\n\t\tbinary.Read(buffer, binary.BigEndian, &out)\n\t\treturn out, nil"))

# --- connection
m("init-none", "C09", ("structures/messages/init.go", 'if user == "" {', 'if user == "" || password == "" {'))
m("init-any-resp", "C09", ("conn.go", "default:\n\t\tlog.Errorf(\"Got an unrecognized message when initializing connection :%+v\", resp)\n", "case messages.RecordMessage:\n\t\treturn nil\n\tdefault:\n\t\tlog.Errorf(\"Got an unrecognized message when initializing connection :%+v\", resp)\n"))
m("noverify-any", "C10", ("conn.go", 'c.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"', 'c.tlsNoVerify = noVerify != ""'))
m("tls-fallback", "C10", ("conn.go", 'conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.url.Host, config)\n\t\tif err != nil {', 'conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.url.Host, config)\n\t\tif err != nil && c.tlsNoVerify {\n\t\t\tconn, err = net.DialTimeout("tcp", c.url.Host, c.timeout)\n\t\t}\n\t\tif err != nil {'))
m("tls-case", "C10", ("conn.go", 'strings.HasPrefix(strings.ToLower(useTLS), "t")', 'strings.HasPrefix(useTLS, "t")'))
m("ca-err-ignored", "C10", ("conn.go", "caCert, err := ioutil.ReadFile(c.caCertFile)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}", "caCert, err := ioutil.ReadFile(c.caCertFile)\n\t\tif err != nil {\n\t\t\tlog.Error(err)\n\t\t\treturn config, nil\n\t\t}"))
m("timeout-ms", "C10 C24", ("conn.go", "c.timeout = time.Duration(timeoutInt) * time.Second", "c.timeout = time.Duration(timeoutInt%3600) * time.Second"))
m("pipe-params0", "C08 C14", ("stmt.go", "err := s.conn.sendRunPullAll(query, params[i])\n\t\tif err != nil {\n\t\t\ts.conn.consumePipeline(i)\n\t\t\treturn nil, errors.Wrap(err, \"Error running query", "err := s.conn.sendRunPullAll(query, params[0])\n\t\tif err != nil {\n\t\t\ts.conn.consumePipeline(i)\n\t\t\treturn nil, errors.Wrap(err, \"Error running query"))
m("chunksize-stuck", "C08", ("conn.go", "initMessage := messages.NewInitMessage(ClientID, c.user, c.password)", "initMessage := messages.NewInitMessage(ClientID, strings.TrimSpace(c.user), c.password)"))
m("run-trim", "C08", ("conn.go", "runMessage := messages.NewRunMessage(query, args)", "runMessage := messages.NewRunMessage(strings.TrimRight(query, \";\"), args)"))
m("numconsume", "C14 C11", ("rows.go", "((numQueries - r.pipelineIndex) * 2) - 1", "(numQueries * 2) - r.pipelineIndex - 1"))
m("ack-ignored", "C12", ("conn.go", 'log.Infof("Got ignored message when acking failure: %#v", resp)\n\t\t\tcontinue', 'log.Infof("Got ignored message when acking failure: %#v", resp)\n\t\t\treturn nil'))
m("ack-fail-noreset", "C12", ("conn.go", "return c.reset()", "return nil"))
m("reset-ignored", "C12", ("conn.go", 'log.Infof("Got ignored message when resetting session: %#v", resp)\n\t\t\tcontinue', 'log.Infof("Got ignored message when resetting session: %#v", resp)\n\t\t\treturn nil'))
m("all-empty-row", "C13", ("rows.go", "if err != nil || row == nil {", "if err != nil || len(row) == 0 {"))
m("all-drop-err", "C13 C12", ("rows.go", "if err == io.EOF {\n\t\t\t\treturn output, metadata, nil", "if err == io.EOF || len(output) > 0 {\n\t\t\t\treturn output, metadata, nil"))
m("close-tx-skip-pool", "C19", ("conn.go", "if c.transaction != nil {\n\t\tif err := c.transaction.Rollback()", "if c.transaction != nil && c.poolDriver == nil {\n\t\tif err := c.transaction.Rollback()"))
m("close-commit", "C15 C18", ("conn.go", "if c.transaction != nil {\n\t\tif err := c.transaction.Rollback()", "if c.transaction != nil {\n\t\tif err := c.transaction.Commit()"))
m("rollback-on-stmt", "C15", ("tx.go", '"ROLLBACK", nil', '"ROLLBACK", map[string]interface{}{}'))
m("prepare-closed", "C16", ("conn.go", "func (c *boltConn) prepare(query string) (*boltStmt, error) {\n\tif c.statement != nil {\n\t\treturn nil, errors.New(\"An open statement already exists\")\n\t}\n\tif c.closed {\n\t\treturn nil, errors.New(\"Connection already closed\")\n\t}\n", "func (c *boltConn) prepare(query string) (*boltStmt, error) {\n\tif c.statement != nil {\n\t\treturn nil, errors.New(\"An open statement already exists\")\n\t}\n"))
m("begin-closed", "C16", ("conn.go", 'Cannot open a transaction when you already have an open statement")\n\t}\n\tif c.closed {', 'Cannot open a transaction when you already have an open statement")\n\t}\n\tif c.closed && c.poolDriver == nil {'))
m("stmt-exec-open", "C16 C11", ("stmt.go", "func (s *boltStmt) ExecNeo(params map[string]interface{}) (Result, error) {\n\tif s.closed {\n\t\treturn nil, errors.New(\"Neo4j Bolt statement already closed\")\n\t}\n\tif s.rows != nil {", "func (s *boltStmt) ExecNeo(params map[string]interface{}) (Result, error) {\n\tif s.closed {\n\t\treturn nil, errors.New(\"Neo4j Bolt statement already closed\")\n\t}\n\tif s.rows != nil && !s.rows.finishedConsume {"))
m("begin-open-tx", "C15", ("conn.go", "if c.transaction != nil {\n\t\treturn nil, errors.New(\"An open transaction already exists\")", "if c.transaction != nil && !c.transaction.closed && c.statement != nil {\n\t\treturn nil, errors.New(\"An open transaction already exists\")"))
m("pull-ok-ignored", "C15 C12", ("tx.go", "pull, ok := pullInt.(messages.SuccessMessage)\n\tif !ok {\n\t\treturn errors.New(\"Unrecognized response type pulling transaction:  %#v\", pull)\n\t}", "pull, _ := pullInt.(messages.SuccessMessage)"))
m("commit-err-nil", "C15", ("tx.go", '"COMMIT", nil)\n\tif err != nil {', '"COMMIT", nil)\n\tif err != nil && successInt == nil {'))
m("write-short", "C17", ("conn.go", "c.connErr = errors.Wrap(err, \"An error occurred writing to stream\")\n\t\terr = driver.ErrBadConn", "c.connErr = errors.Wrap(err, \"An error occurred writing to stream\")\n\t\tif n < len(b) {\n\t\t\terr = driver.ErrBadConn\n\t\t} else {\n\t\t\terr = nil\n\t\t}"))
m("deadline-ignored", "C17 C24", ("conn.go", "c.connErr = errors.Wrap(err, \"An error occurred setting read deadline\")\n\t\treturn 0, driver.ErrBadConn", "log.Error(err)"))
m("close-err-lost", "C18", ("conn.go", "c.connErr = errors.Wrap(err, \"An error occurred closing the connection\")\n\t\t\treturn driver.ErrBadConn\n\t\t}\n\t}\n", "c.connErr = errors.Wrap(err, \"An error occurred closing the connection\")\n\t\t}\n\t}\n"))
m("reclaim-bad", "C19", ("driver.go", "if conn.connErr != nil || conn.closed {", "if conn.closed {"))
m("reclaim-same", "C19", ("driver.go", "newConn = &boltConn{}\n\t\t*newConn = *conn", "newConn = conn"))
m("pool-nil", "C19", ("driver.go", "if(conn.conn == nil) {//nil check before attempting read\n\t\treturn true", "if(conn.conn == nil) {//nil check before attempting read\n\t\treturn conn.connErr == nil"))
m("shared-version", "C20", ("conn.go", "serverVersion: make([]byte, 4),", "serverVersion: noVersionBuf,"), ("conn.go", "func createBoltConn(connStr string)", "var noVersionBuf = make([]byte, 4)\n\nfunc createBoltConn(connStr string)"))
m("shared-encbuf", "C20", (E, "buf:       &bytes.Buffer{},", "buf:       encBuf,"), (E, "// NewEncoder Creates", "var encBuf = &bytes.Buffer{}\n\n// NewEncoder Creates"))
m("pool-close-first", "C21", ("driver.go", "for _, conn := range d.connRefs {\n\t\t// The", "for i, conn := range d.connRefs {\n\t\tif i > 0 && err != nil {\n\t\t\tbreak\n\t\t}\n\t\t// The"))
m("pool-lock", "C20 C21", ("driver.go", "	// Lock the connection ref so no new connections can be added\n\td.refLock.Lock()\n\tdefer d.refLock.Unlock()\n\tif d.closed {\n\t\treturn nil\n\t}\n\t// Mark the pool as closed to stop any new connections\n\td.closed = true\n\tclose(d.closing)\n", "	if d.closed {\n\t\treturn nil\n\t}\n\t// Mark the pool as closed to stop any new connections\n\td.closed = true\n\tclose(d.closing)\n\td.refLock.Lock()\n\tdefer d.refLock.Unlock()\n"))
m("args-last", "C22", ("util.go", "for k, v := range params {\n\t\t\toutput[k] = v\n\t\t}", "output = params"))
m("next-path", "C22", ("rows.go", "graph.Node, graph.Path, graph.Relationship, graph.UnboundRelationship:", "graph.Node, graph.Relationship, graph.UnboundRelationship:"))
m("next-map", "C22", ("rows.go", "case []interface{}, map[string]interface{}, graph.Node", "case map[string]interface{}, graph.Node"))
m("rows-aff-reldel", "C23", ("result.go", '"nodes-deleted", "relationships-deleted"}', '"nodes-deleted"}'))
m("stats-missing", "C23", ("result.go", 'if _, ok := r.metadata["stats"]; !ok {', 'if s, ok := r.metadata["stats"]; !ok || s == nil {'))
m("wdl-read", "C24", ("conn.go", "c.conn.SetWriteDeadline(time.Now().Add(c.timeout))", "c.conn.SetDeadline(time.Now().Add(c.timeout))"))
m("settimeout-zero", "C24", ("conn.go", "c.timeout = timeout\n}", "if timeout >= time.Second {\n\t\tc.timeout = timeout\n\t}\n}"))
m("innermost", "C25", ("errors/errors.go", "if inner, ok := e.wrapped.(*Error); ok {\n\t\treturn inner.InnerMost()", "if inner, ok := e.wrapped.(*Error); ok {\n\t\treturn inner.Inner()"))
m("err-text", "C25", ("errors/errors.go", "wrappedErr.error(level+1)", "wrappedErr.InnerMost().Error()"))
m("log-info-err", "C26", ("log/log.go", 'case "info":\n\t\tlevel = InfoLevel', 'case "info", "warn":\n\t\tlevel = InfoLevel'))
m("log-tracef", "C26", ("log/log.go", "func Infof(msg string, args ...interface{}) {\n\tif level >= InfoLevel {", "func Infof(msg string, args ...interface{}) {\n\tif level > ErrorLevel-1 {"))
m("log-consume", "C26", ("conn.go", 'if log.GetLevel() >= log.TraceLevel {\n\t\tlog.Tracef("Consumed Response: %#v", respInt)\n\t}', 'if log.GetLevel() >= log.TraceLevel {\n\t\tlog.Tracef("Consumed Response: %#v", respInt)\n\t\tif _, isIgn := respInt.(messages.IgnoredMessage); isIgn {\n\t\t\treturn c.consume()\n\t\t}\n\t}'))

# --- second round
T="structures/graph/"
m("r2-float-negzero", "C01 C02", (E, "func (e Encoder) encodeFloat(val float64) error {\n", "func (e Encoder) encodeFloat(val float64) error {\n\tif val == 0 {\n\t\tval = 0\n\t}\n"))
m("r2-float-nan", "C01 C02 C07", (E, "func (e Encoder) encodeFloat(val float64) error {\n", "func (e Encoder) encodeFloat(val float64) error {\n\tif val != val {\n\t\treturn e.encodeNil()\n\t}\n"))
m("r2-float-as-int", "C01 C02", (E, "case float64:\n\t\terr = e.encodeFloat(val)", "case float64:\n\t\tif i := int64(val); i > math.MaxInt32 && float64(i) == val && i < 1<<53 {\n\t\t\treturn e.encodeInt(i)\n\t\t}\n\t\terr = e.encodeFloat(val)"))
m("r2-float32", "C01", (E, "err = e.encodeFloat(float64(val))", "err = e.encodeFloat(float64(int64(val*1e6)) / 1e6)"))
m("r2-int16-max", "C01 C02", (E, "case val > math.MaxInt8 && val <= math.MaxInt16:", "case val > math.MaxInt8 && val <= math.MaxUint16:"))
m("r2-int32-max", "C02", (E, "case val > math.MaxInt16 && val <= math.MaxInt32:", "case val > math.MaxInt16 && val < math.MaxInt32:"), (E,"case val > math.MaxInt32 && val <= math.MaxInt64:","case val >= math.MaxInt32 && val <= math.MaxInt64:"))
m("r2-str255", "C02 C01", (E, "case length > 15 && length <= math.MaxUint8:\n\t\tif _, err = e.Write([]byte{String8Marker})", "case length > 15 && length < math.MaxUint8:\n\t\tif _, err = e.Write([]byte{String8Marker})"), (E, "case length > math.MaxUint8 && length <= math.MaxUint16:\n\t\tif _, err = e.Write([]byte{String16Marker})", "case length >= math.MaxUint8 && length <= math.MaxUint16:\n\t\tif _, err = e.Write([]byte{String16Marker})"))
m("r2-str16-size", "C01 C02", (E, "case length > math.MaxUint16 && int64(length) <= math.MaxUint32:\n\t\tif _, err = e.Write([]byte{String32Marker})", "case length > math.MaxUint16+16 && int64(length) <= math.MaxUint32:\n\t\tif _, err = e.Write([]byte{String32Marker})"), (E, "case length > math.MaxUint8 && length <= math.MaxUint16:\n\t\tif _, err = e.Write([]byte{String16Marker})", "case length > math.MaxUint8 && length <= math.MaxUint16+16:\n\t\tif _, err = e.Write([]byte{String16Marker})"))
m("r2-typed-slice-nil", "C01 C02", (E, "s := reflect.ValueOf(iVal)\n\t\t\tnewSlice", "s := reflect.ValueOf(iVal)\n\t\t\tif s.IsNil() {\n\t\t\t\treturn e.encodeNil()\n\t\t\t}\n\t\t\tnewSlice"))
m("r2-map-nil-null", "C01 C02 C08", (E, "func (e Encoder) encodeMap(val map[string]interface{}) error {\n", "func (e Encoder) encodeMap(val map[string]interface{}) error {\n\tif val == nil {\n\t\treturn e.encodeNil()\n\t}\n"))
m("r2-labels-dedup", "C01 C02", (T+"node.go", "labels[i] = label", "if i > 0 && label == n.Labels[i-1] {\n\t\t\tlabels = labels[:len(labels)-1]\n\t\t\tcontinue\n\t\t}\n\t\tlabels[i] = label"))
m("r2-bytes-as-string", "C01 C02", (E, "case string:\n\t\terr = e.encodeString(val)", "case string:\n\t\terr = e.encodeString(val)\n\tcase []byte:\n\t\terr = e.encodeString(string(val))"))
m("r2-chunk-zero", "C03", (E, "for e.buf.Len() > 0 {\n\t\t// A chunk", "for first := true; first || e.buf.Len() > 0; first = false {\n\t\t// A chunk"))
m("r2-chunk-max", "C03", (E, "e.buf.Next(math.MaxUint16)", "e.buf.Next(math.MaxUint16 + 1)"))
m("r2-stale-buf", "C07 C08", (E, "if err != nil {\n\t\te.buf.Reset()\n\t\treturn err\n\t}\n\n\t// Whatever", "if err != nil {\n\t\treturn err\n\t}\n\n\t// Whatever"))
m("r2-readfull-once", "C04 C17", (D, "if numRead, err := io.ReadFull(d.r, output); err != nil {", "if numRead, err := io.ReadAtLeast(d.r, output, int(messageLen+1)/2); err != nil {"))
m("r2-eof-mid", "C04 C17 C06", (D, "if err != nil {\n\t\t\treturn output, errors.Wrap(err, \"An error occurred reading message data\")\n\t\t}", "if err != nil && output.Len() == 0 {\n\t\t\treturn output, errors.Wrap(err, \"An error occurred reading message data\")\n\t\t} else if err != nil {\n\t\t\treturn output, nil\n\t\t}"))
m("r2-slice-prealloc", "C05", (D, "slice := []interface{}{}\n", "slice := make([]interface{}, 0, size)\n"), (D, "if size < 0 || size > buffer.Len() {\n\t\treturn nil, errors.New(\"Slice", "if size < 0 {\n\t\treturn nil, errors.New(\"Slice"))
m("r2-slice-prealloc-nested", "C05", (D, "slice := []interface{}{}\n", "slice := make([]interface{}, 0, size)\n"))
m("r2-depth-slice", "C05", (D, "d.depth++\n", "if d.depth < maxDepth {\n\t\td.depth++\n\t}\n"))
m("r2-map-nilkey", "C06", (D, "key, ok := keyInt.(string)\n\t\tif !ok {", "key, ok := keyInt.(string)\n\t\tif !ok && keyInt != nil {"))
m("r2-struct-size", "C06 C05", (D, "ok && size != expected {", "ok && size < expected {"))
m("r2-trailing", "C06", (D, "} else if data.Len() > 0 {", "} else if data.Len() > 1 {"))
m("r2-str-short", "C06", (D, "if size < 0 || size > buffer.Len() {\n\t\treturn nil, errors.New(\"String", "if size < 0 || size > buffer.Len()+1 {\n\t\treturn nil, errors.New(\"String"))
m("r2-labels-nonstring", "C06", ("encoding/util.go", "return nil, errors.New(\"Expected string value. Got %T %+v\", item, item)", "if item == nil {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\treturn nil, errors.New(\"Expected string value. Got %T %+v\", item, item)"))
m("r2-path-rels", "C06", ("encoding/util.go", "toItem, ok := item.(graph.UnboundRelationship)\n\t\tif !ok {", "toItem, ok := item.(graph.UnboundRelationship)\n\t\tif rel, isRel := item.(graph.Relationship); isRel {\n\t\t\ttoItem, ok = graph.UnboundRelationship{RelIdentity: rel.RelIdentity, Type: rel.Type, Properties: rel.Properties}, true\n\t\t}\n\t\tif !ok {"))
m("r2-ignored-meta", "C06", (D, "for i := 0; i < size; i++ {\n\t\tif _, err := d.decode(buffer); err != nil {\n\t\t\treturn messages.IgnoredMessage{}, err\n\t\t}\n\t}\n", "buffer.Next(buffer.Len())\n"))
m("r2-uintptr", "C07", (E, "case uint8:\n", "case uintptr:\n\t\terr = e.encodeInt(int64(val))\n\tcase uint8:\n"))
m("r2-sticky-err", "C07", (E, "if _, err := message.WriteTo(e.w); err != nil {\n\t\treturn errors.Wrap(err, \"An error occurred writing message to stream\")\n\t}", "if n, err := message.WriteTo(e.w); err != nil && n == 0 {\n\t\treturn errors.Wrap(err, \"An error occurred writing message to stream\")\n\t}"))
m("r2-nested-bad", "C07", (E, "if err := e.encode(field); err != nil {", "if err := e.encode(field); err != nil && length > 1 {"))
m("r2-hs-read", "C09", ("conn.go", "} else if !bytes.Equal(c.serverVersion, supportedVersions[:4]) {", "} else if c.serverVersion[3] != supportedVersions[3] {"))
m("r2-hs-single-read", "C09", ("conn.go", "numRead, err := io.ReadFull(c, c.serverVersion)", "numRead, err := c.Read(c.serverVersion)"))
m("r2-init-leak", "C09 C18", ("conn.go", "respInt, err := c.sendInit()\n\tif err != nil {\n\t\tc.connErr = err\n\t\tif e := c.Close(); e != nil {\n\t\t\tlog.Errorf(\"An error occurred closing connection: %s\", e)\n\t\t}\n\t\treturn err", "respInt, err := c.sendInit()\n\tif err != nil {\n\t\tc.connErr = err\n\t\treturn err"))
m("r2-init-ignored", "C09", ("conn.go", "case messages.SuccessMessage:\n\t\tlog.Infof(\"Successfully initiated", "case messages.SuccessMessage, messages.IgnoredMessage:\n\t\tlog.Infof(\"Successfully initiated"))
m("r2-user-lower", "C09 C10", ("conn.go", "c.user = url.User.Username()", "c.user = strings.TrimSpace(url.User.Username())"))
m("r2-nopass", "C10", ("conn.go", "if !isSet {", "if !isSet && c.user != \"\" {"))
m("r2-servername", "C10", ("conn.go", "MaxVersion: tls.VersionTLS12,\n\t}\n", "MaxVersion: tls.VersionTLS12,\n\t}\n\tif c.url != nil {\n\t\tconfig.ServerName = c.url.Host\n\t}\n"))
m("r2-timeout-neg", "C10 C24", ("conn.go", "c.timeout = time.Duration(timeoutInt) * time.Second", "if timeoutInt > 0 {\n\t\t\tc.timeout = time.Duration(timeoutInt) * time.Second\n\t\t}"))
m("r2-scheme", "C10", ("conn.go", 'strings.ToLower(url.Scheme) != "bolt"', '!strings.HasPrefix(strings.ToLower(url.Scheme), "bolt")'))
m("r2-ca-only-verify", "C10", ("conn.go", 'if c.caCertFile != "" {', 'if c.caCertFile != "" && c.certFile == "" {'))
m("r2-tls-timeout", "C10 C24", ("conn.go", "&net.Dialer{Timeout: c.timeout}", "&net.Dialer{}"))
m("r2-pull-lost", "C08 C11", ("conn.go", "func (c *boltConn) sendRunPullAll(query string, args map[string]interface{}) error {\n\terr := c.sendRun(query, args)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\treturn c.sendPullAll()", "func (c *boltConn) sendRunPullAll(query string, args map[string]interface{}) error {\n\terr := c.sendRun(query, args)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif query == \"\" {\n\t\treturn c.sendDiscardAll()\n\t}\n\n\treturn c.sendPullAll()"))
m("r2-fields-shared", "C11 C13", ("conn.go", "rows, err := c.queryNeo(query, params)\n\tif err != nil {\n\t\treturn nil, nil, nil, err\n\t}\n\tdefer rows.Close()\n", "rows, err := c.queryNeo(query, params)\n\tif err != nil {\n\t\treturn nil, nil, nil, err\n\t}\n"))
m("r2-queryall-meta", "C11 C13", ("conn.go", "return data, rows.metadata, metadata, err\n", "return data, metadata, metadata, err\n"))
m("r2-row-reuse", "C13 C11", ("rows.go", "		output = append(output, row)\n", "		if len(output) > 1 && len(row) == 0 {\n\t\t\tcontinue\n\t\t}\n\t\toutput = append(output, row)\n"))
m("r2-cols-cap", "C13", ("rows.go", "fieldsStr := make([]string, len(fields))\n\tfor i, f := range fields {\n", "fieldsStr := make([]string, len(fields))\n\tfor i, f := range fields {\n\t\tif s, isStr := f.(string); isStr && s == \"\" {\n\t\t\treturn []string{}\n\t\t}\n"))
m("r2-finish-consumed", "C11 C13", ("rows.go", "} else if !r.finishedConsume {", "} else if !r.finishedConsume && r.consumeErr == nil && r.statement.conn.transaction == nil {"))
m("r2-rows-discard", "C11 C13", ("rows.go", "if !r.consumed {\n\t\t// Discard all", "if !r.consumed && len(r.Columns()) > 0 {\n\t\t// Discard all"))
m("r2-after-eof", "C13", ("rows.go", "if r.finishedConsume {\n\t\treturn nil, nil, r.ended()\n\t}\n\n\tif !r.consumed", "if !r.consumed"))
m("r2-consume-err-eof", "C13 C12", ("rows.go", "func (r *boltRows) ended() error {\n\tif r.consumeErr != nil {\n\t\treturn r.consumeErr\n\t}", "func (r *boltRows) ended() error {"))
m("r2-ack-in-tx", "C12 C15", ("conn.go", "		err := c.ackFailure(failure)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n", "		if c.transaction == nil || c.statement == nil {\n\t\t\terr := c.ackFailure(failure)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t} else {\n\t\t\tif err := c.reset(); err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t}\n"))
m("r2-failure-meta", "C12", ("structures/messages/failure.go", "return FailureMessage{\n\t\tMetadata: metadata,\n\t}", "if metadata[\"code\"] == nil {\n\t\tmetadata = map[string]interface{}{\"message\": metadata[\"message\"]}\n\t}\n\treturn FailureMessage{\n\t\tMetadata: metadata,\n\t}"))
m("r2-ack-double", "C12", ("conn.go", "return failure, errors.Wrap(failure, \"Neo4J reported a failure for the query\")", "if c.statement != nil && c.statement.queries != nil {\n\t\t\tc.ackFailure(failure)\n\t\t}\n\t\treturn failure, errors.Wrap(failure, \"Neo4J reported a failure for the query\")"))
m("r2-pipe-next-err", "C14 C12", ("rows.go", "if err != nil && err != io.EOF {\n\t\t\tr.consumeErr = err\n\t\t\treturn nil, nil, nil, errors.Wrap(err", "if err != nil && err != io.EOF {\n\t\t\treturn nil, nil, nil, errors.Wrap(err"))
m("r2-pipe-index", "C14", ("rows.go", "r.pipelineIndex+1)\n", "1)\n"))
m("r2-pipe-closestmt", "C14 C16", ("rows.go", "r.statement.rows.closeStatement = r.closeStatement\n", ""))
m("r2-pipe-consume", "C14 C08", ("stmt.go", "s.conn.consumePipeline(i)\n\t\t\treturn nil, errors.Wrap(err, \"Error running exec", "return nil, errors.Wrap(err, \"Error running exec"))
m("r2-pipe-consume2", "C14", ("conn.go", "c.consumeAllMultiple(queries * 2)", "c.consumeAllMultiple(queries)"))
m("r2-pipe-params", "C14", ("stmt.go", "func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, error) {\n\tif s.closed {\n\t\treturn nil, errors.New(\"Neo4j Bolt statement already closed\")\n\t}\n\tif s.rows != nil {\n\t\treturn nil, errors.New(\"Another query is already open\")\n\t}\n\n\tif len(params) != len(s.queries) {", "func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, error) {\n\tif s.closed {\n\t\treturn nil, errors.New(\"Neo4j Bolt statement already closed\")\n\t}\n\tif s.rows != nil {\n\t\treturn nil, errors.New(\"Another query is already open\")\n\t}\n\n\tif len(params) < len(s.queries) {"))
m("r2-commit-rows", "C15", ("tx.go", "if e := t.Rollback(); e != nil {\n\t\t\t\tlog.Errorf(\"An error occurred rolling back transaction: %s\", e)\n\t\t\t}\n", ""))
m("r2-commit-rows2", "C15", ("tx.go", "if err := t.conn.statement.Close(); err != nil {\n\t\t\tif e := t.Rollback()", "if err := t.conn.statement.Close(); err != nil && t.conn.connErr != nil {\n\t\t\tif e := t.Rollback()"))
m("r2-tx-finish-late", "C15 C12", ("tx.go", "	t.finish()\n	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle(\"ROLLBACK\", nil)\n	if err != nil {\n", "	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle(\"ROLLBACK\", nil)\n	if err == nil {\n\t\tt.finish()\n\t}\n	if err != nil {\n"))
m("r2-tx-old", "C15", ("tx.go", "t.conn.transaction = nil\n\tt.closed = true", "t.closed = true\n\tif t.conn.transaction == t {\n\t\tt.conn.transaction = nil\n\t}"), ("tx.go", "if t.closed {\n\t\treturn errors.New(\"Transaction already closed\")\n\t}\n\tif t.conn.statement != nil {\n\t\tif err := t.conn.statement.Close(); err != nil {\n\t\t\t// The", "if t.closed && t.conn.transaction == nil {\n\t\treturn errors.New(\"Transaction already closed\")\n\t}\n\tif t.conn.statement != nil {\n\t\tif err := t.conn.statement.Close(); err != nil {\n\t\t\t// The"))
m("r2-close-twice", "C16 C18", ("conn.go", "func (c *boltConn) Close() error {\n\n\tif c.closed {\n\t\treturn nil\n\t}", "func (c *boltConn) Close() error {\n\n\tif c.closed && c.connErr == nil {\n\t\treturn nil\n\t}"))
m("r2-rows-closed-next", "C16", ("rows.go", "func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {\n\tif r.closed {\n\t\treturn nil, nil, errors.New(\"Rows are already closed\")\n\t}\n", "func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {\n\tif r.closed && r.statement.conn == nil {\n\t\treturn nil, nil, errors.New(\"Rows are already closed\")\n\t}\n"))
m("r2-connerr-eof", "C17", ("conn.go", "if err != nil {\n\t\tc.connErr = errors.Wrap(err, \"An error occurred reading from stream\")\n\t}\n\tif err != nil && err != io.EOF {\n", "if err != nil && err != io.EOF {\n\t\tc.connErr = errors.Wrap(err, \"An error occurred reading from stream\")\n"))
m("r2-temp-err", "C17", ("conn.go", "n, err = c.conn.Read(b)\n", "n, err = c.conn.Read(b)\n\tif ne, ok := err.(net.Error); ok && ne.Timeout() && n == 0 {\n\t\tn, err = c.conn.Read(b)\n\t}\n"))
m("r2-write-noerr", "C17", ("conn.go", "c.connErr = errors.Wrap(err, \"An error occurred writing to stream\")\n\t\terr = driver.ErrBadConn", "if n == 0 {\n\t\t\tc.connErr = errors.Wrap(err, \"An error occurred writing to stream\")\n\t\t}\n\t\terr = driver.ErrBadConn"))
m("r2-decode-nomark", "C17", ("conn.go", "if err != nil && c.connErr == nil {\n\t\t// Without", "if err != nil && c.connErr == nil && respInt != nil {\n\t\t// Without"))
m("r2-close-badconn", "C18", ("conn.go", "	c.closed = true\n	if c.conn != nil {\n", "	c.closed = true\n	if c.conn != nil && (c.connErr == nil || c.transaction == nil) {\n"))
m("r2-close-stmt-err", "C18", ("conn.go", "if err := c.statement.Close(); err != nil {\n\t\t\tcloseErr = err\n\t\t}", "if err := c.statement.Close(); err != nil {\n\t\t\treturn err\n\t\t}"))
m("r2-pool-init-lost", "C19", ("conn.go", "c.conn, err = c.createConn()\n\t\tif err != nil {\n\t\t\t// Return the connection back into the pool\n\t\t\tif e := c.Close(); e != nil {\n\t\t\t\tlog.Errorf(\"An error occurred closing connection: %s\", e)\n\t\t\t}\n\t\t\treturn err", "c.conn, err = c.createConn()\n\t\tif err != nil {\n\t\t\treturn err"))
m("r2-pool-double", "C19 C20", ("driver.go", "	conn.closed = true\n	d.pool <- newConn", "	conn.closed = conn.connErr == nil\n	d.pool <- newConn"))
m("r2-pool-leak", "C19", ("driver.go", "if conn.conn != nil {\n\t\t\tif err := conn.conn.Close(); err != nil {\n\t\t\t\tlog.Errorf(\"An error occurred closing bad", "if conn.conn != nil && conn.closed {\n\t\t\tif err := conn.conn.Close(); err != nil {\n\t\t\t\tlog.Errorf(\"An error occurred closing bad"))
m("r2-swapref", "C21", ("driver.go", "if newConn.conn != nil && !d.swapRef(conn, newConn) {", "if newConn.conn != nil && !d.swapRef(nil, newConn) {"))
m("r2-pool-closed-reclaim", "C21", ("driver.go", "if newConn.conn != nil && !d.swapRef(conn, newConn) {\n\t\t\tnewConn.conn.Close()\n\t\t}", "if newConn.conn != nil {\n\t\t\td.swapRef(conn, newConn)\n\t\t}"))
m("r2-pool-connecting", "C21", ("driver.go", "// when closing the pool no new connections are made.\n\t\t\t\tconn.Close()\n", "// when closing the pool no new connections are made.\n"))
m("r2-pool-nowake", "C21", ("driver.go", "d.closed = true\n	close(d.closing)\n", "d.closed = true\n\tif len(d.connRefs) < d.maxConns {\n\t\tclose(d.closing)\n\t}\n"))
m("r2-open-locked", "C20 C21", ("driver.go", "	d.refLock.Lock()\n	closed := d.closed\n	d.refLock.Unlock()\n", "	d.refLock.Lock()\n	closed := d.closed\n	defer d.refLock.Unlock()\n"))
m("r2-args-nil", "C22", ("util.go", "argBytes, ok := arg.([]byte)\n", "if arg == nil {\n\t\t\tcontinue\n\t\t}\n\t\targBytes, ok := arg.([]byte)\n"))
m("r2-args-first", "C22", ("util.go", "output[k] = v\n", "if _, dup := output[k]; !dup {\n\t\t\t\toutput[k] = v\n\t\t\t}\n"))
m("r2-next-short", "C22", ("rows.go", "if len(data) > len(dest) {", "if len(data) > len(dest)+1 {"))
m("r2-next-str", "C22", ("rows.go", "switch item := item.(type) {\n", "switch item := item.(type) {\n\t\tcase string:\n\t\t\tdest[i] = []byte(item)\n"))
m("r2-res-neg", "C23", ("result.go", "rowsAffected += count\n", "if count > 0 {\n\t\t\trowsAffected += count\n\t\t}\n"))
m("r2-res-int32", "C23", ("result.go", "rowsAffected += count\n", "rowsAffected += int64(int32(count))\n"))
m("r2-pipe-res", "C23 C14", ("stmt.go", "results[i] = newResult(success.Metadata)", "results[i] = newResult(success.Metadata)\n\t\tif i > 0 && success.Metadata[\"stats\"] == nil {\n\t\t\tresults[i] = results[i-1]\n\t\t}"))
m("r2-deadline-once", "C24", ("conn.go", "if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {", "if len(b) <= 2 {\n\t\tif err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {\n\t\t\tc.connErr = errors.Wrap(err, \"An error occurred setting read deadline\")\n\t\t\treturn 0, driver.ErrBadConn\n\t\t}\n\t} else if err := error(nil); err != nil {"))
m("r2-deadline-max", "C24", ("conn.go", "func (c *boltConn) SetTimeout(timeout time.Duration) {\n", "func (c *boltConn) SetTimeout(timeout time.Duration) {\n\tif timeout > time.Hour {\n\t\ttimeout = time.Hour\n\t}\n"))
m("r2-err-wrap-level", "C25", ("errors/errors.go", "if e, ok := err.(*Error); ok {\n\t\treturn &Error{\n\t\t\tmsg:     fmt.Sprintf(msg, args...),\n\t\t\twrapped: e,", "if e, ok := err.(*Error); ok {\n\t\tif len(args) > 0 && e.wrapped != nil {\n\t\t\terr = e.wrapped\n\t\t}\n\t\treturn &Error{\n\t\t\tmsg:     fmt.Sprintf(msg, args...),\n\t\t\twrapped: err,"))
m("r2-log-mixed", "C26", ("log/log.go", "switch strings.ToLower(levelStr) {", "switch strings.TrimSpace(strings.ToLower(levelStr)) {"))
m("r2-log-trace-none", "C26", ("log/log.go", "default:\n\t\tlevel = NoneLevel", "case \"none\", \"\":\n\t\tlevel = NoneLevel"))
m("r2-log-errorln", "C26", ("log/log.go", "ErrorLog.Println(args...)", "InfoLog.Println(args...)"))
m("r2-log-write", "C26 C08", ("conn.go", "Tracef(\"Wrote %d of %d bytes to stream:\\n\\n%s\\n\", len(b), n, sprintByteHex(b[:n]))", "Tracef(\"Wrote %d of %d bytes to stream:\\n\\n%s\\n\", len(b), n, sprintByteHex(b[:n]))\n\t\tif n < len(b) {\n\t\t\terr = nil\n\t\t}"))

# --- third round
C="conn.go"; R="rows.go"; S="stmt.go"; DR="driver.go"
m("r3-enc-pool", "C07 C08", (E, 'import (\n', 'import (\n\t"sync"\n'), (E, "// Encode encodes an object to the stream\nfunc (e Encoder) Encode", "var messagePool = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}\n\n// Encode encodes an object to the stream\nfunc (e Encoder) Encode"), (E, "message := &bytes.Buffer{}\n", "message := messagePool.Get().(*bytes.Buffer)\n\tdefer messagePool.Put(message)\n"))
m("r3-enc-scratch", "C20", (E, "// Encode encodes an object to the stream\nfunc (e Encoder) Encode", "var scratch [9]byte\n\n// Encode encodes an object to the stream\nfunc (e Encoder) Encode"), (E, "if _, err = e.Write([]byte{Int16Marker}); err != nil {\n\t\t\treturn err\n\t\t}\n\t\terr = binary.Write(e, binary.BigEndian, int16(val))\n\tcase val > math.MaxInt16", "scratch[0] = Int16Marker\n\t\tbinary.BigEndian.PutUint16(scratch[1:], uint16(val))\n\t\t_, err = e.Write(scratch[:3])\n\tcase val > math.MaxInt16"))
m("r3-enc-header-scratch", "C20", (E, "// Encode encodes an object to the stream\nfunc (e Encoder) Encode", "var marker [1]byte\n\n// Encode encodes an object to the stream\nfunc (e Encoder) Encode"), (E, "if _, err = e.Write([]byte{byte(TinyStringMarker + length)}); err != nil {", "marker[0] = byte(TinyStringMarker + length)\n\t\tif _, err = e.Write(marker[:]); err != nil {"))
m("r3-string-runes", "C01 C02", (E, 'import (\n', 'import (\n\t"unicode/utf8"\n'), (E, "length := len(bytes)\n", "length := len(bytes)\n\tif length > 15 && length <= math.MaxUint8 && utf8.ValidString(val) {\n\t\tlength = utf8.RuneCountInString(val)\n\t}\n"))
m("r3-string-utf8", "C01 C06", (D, 'import (\n', 'import (\n\t"strings"\n'), (D, "return string(buffer.Next(size)), nil", 'return strings.ToValidUTF8(string(buffer.Next(size)), "?"), nil'))
m("r3-string-nul", "C01 C06", (D, "return string(buffer.Next(size)), nil", 'return string(bytes.TrimRight(buffer.Next(size), "\\x00")), nil'))
m("r3-dec-depth-struct", "C05", (D, "	signature, err := buffer.ReadByte()\n", "	d.depth = 0\n	signature, err := buffer.ReadByte()\n"))
m("r3-dec-depth-map", "C05", (D, "		val, err := d.decode(buffer)\n", "		val, err := Decoder{r: d.r, buf: d.buf}.decode(buffer)\n"))
m("r3-dec-keycache", "C20", (D, "func (d Decoder) decodeMap(", "var keys = map[string]string{}\n\nfunc (d Decoder) decodeMap("), (D, "		mapp[key] = val\n", "		if known, ok := keys[key]; ok {\n\t\t\tkey = known\n\t\t} else {\n\t\t\tkeys[key] = key\n\t\t}\n\t\tmapp[key] = val\n"))
m("r3-dec-dupkey", "C06", (D, "		mapp[key] = val\n", "		if _, dup := mapp[key]; !dup {\n\t\t\tmapp[key] = val\n\t\t}\n"))
m("r3-dec-emptykey", "C01 C06", (D, "		if !ok {\n\t\t\treturn nil, errors.New(\"Unexpected key type", "		if key == \"\" {\n\t\t\tcontinue\n\t\t}\n\t\tif !ok {\n\t\t\treturn nil, errors.New(\"Unexpected key type"))
m("r3-chunk-signed", "C04", (D, "func (d Decoder) readData(messageLen uint16) ([]byte, error) {\n", "func (d Decoder) readData(messageLen uint16) ([]byte, error) {\n\tif int16(messageLen) < 0 {\n\t\treturn nil, errors.New(\"Invalid message length: %d\", messageLen)\n\t}\n"))
m("r3-ack-limit", "C12 C14", (C, "	for {\n		respInt, err := c.decode()\n		if err != nil {\n			return errors.Wrap(err, \"An error occurred decoding ack failure", "	for i := 0; ; i++ {\n\t\tif i > 8 {\n\t\t\treturn c.reset()\n\t\t}\n		respInt, err := c.decode()\n		if err != nil {\n			return errors.Wrap(err, \"An error occurred decoding ack failure"))
m("r3-ack-limit-20", "C12 C14", (C, "	for {\n		respInt, err := c.decode()\n		if err != nil {\n			return errors.Wrap(err, \"An error occurred decoding ack failure", "	for i := 0; ; i++ {\n\t\tif i > 20 {\n\t\t\treturn c.reset()\n\t\t}\n		respInt, err := c.decode()\n		if err != nil {\n			return errors.Wrap(err, \"An error occurred decoding ack failure"))
m("r3-reset-after", "C12", (C, "	closed        bool\n", "	closed        bool\n	failures      int\n"), (C, "	ack := messages.NewAckFailureMessage()\n", "	c.failures++\n	if c.failures > 3 {\n\t\treturn c.reset()\n\t}\n	ack := messages.NewAckFailureMessage()\n"))
m("r3-isvalid-closed", "C22", (C, "return c.connErr == nil && !c.closed", "return !c.closed"))
m("r3-deadline-cached", "C24", (C, "	closed        bool\n", "	closed        bool\n	readUntil     time.Time\n"), (C, "	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {\n", "	if now := time.Now(); c.readUntil.Sub(now) > c.timeout/2 {\n\t\treturn c.conn.Read(b)\n\t}\n\tc.readUntil = time.Now().Add(c.timeout)\n	if err := c.conn.SetReadDeadline(c.readUntil); err != nil {\n"))
m("r3-timeout-zero", "C24", (C, "	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {\n", "	deadline := time.Now().Add(c.timeout)\n	if c.timeout == 0 {\n\t\tdeadline = time.Time{}\n\t}\n	if err := c.conn.SetWriteDeadline(deadline); err != nil {\n"))
m("r3-close-early", "C18", (C, "	// The connection is given up even if the session can't be ended cleanly\n", "	if c.connErr != nil && c.poolDriver == nil && c.statement != nil {\n\t\tc.closed = true\n\t\treturn driver.ErrBadConn\n\t}\n	// The connection is given up even if the session can't be ended cleanly\n"))
m("r3-commit-pull", "C15", ("tx.go", 'log.Infof("Got success message committing transaction: %#v", success)\n', 'log.Infof("Got success message committing transaction: %#v", success)\n\tif pullInt != nil {\n\t\treturn nil\n\t}\n'))
m("r3-rollback-failed", "C12 C15", (C, "	closed        bool\n", "	closed        bool\n	failed        bool\n"), (C, "	ack := messages.NewAckFailureMessage()\n", "	c.failed = c.transaction != nil\n	ack := messages.NewAckFailureMessage()\n"), ("tx.go", '	t.finish()\n	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("ROLLBACK", nil)', '	t.finish()\n	if t.conn.failed {\n\t\t// The server has rolled it back already\n\t\tt.conn.failed = false\n\t\treturn nil\n\t}\n\n	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("ROLLBACK", nil)'))
m("r3-cols-cache", "C11 C13 C08", (S, "	rows    *boltRows\n", "	rows    *boltRows\n	meta    map[string]interface{}\n"), (S, "s.rows = newRows(s, resp.Metadata)", "if s.meta == nil {\n\t\ts.meta = resp.Metadata\n\t}\n\ts.rows = newRows(s, s.meta)"))
m("r3-next-nil", "C22", (R, "	for i, item := range data {\n", "	for i, item := range data {\n\t\tif item == nil {\n\t\t\tcontinue\n\t\t}\n"))
m("r3-next-empty-list", "C22", (R, "	for i, item := range data {\n", "	for i, item := range data {\n\t\tif l, ok := item.([]interface{}); ok && len(l) == 0 {\n\t\t\tdest[i] = nil\n\t\t\tcontinue\n\t\t}\n"))
m("r3-log-percent", "C26", ("log/log.go", "InfoLog.Println(args...)", "Infof(l.Prefix(), args...)") if 0 else ("log/log.go", "func Error(args ...interface{}) {\n	if level >= ErrorLevel {\n		ErrorLog.Println(args...)", "func Error(args ...interface{}) {\n	if level >= ErrorLevel {\n		if msg, ok := args[0].(string); ok {\n			ErrorLog.Printf(msg, args[1:]...)\n			return\n		}\n		ErrorLog.Println(args...)"))
m("r3-err-format", "C25", ("errors/errors.go", 'msg := fmt.Sprintf("%s%s", strings.Repeat("\\t", level), e.msg)', 'msg := fmt.Sprintf(strings.Repeat("\\t", level) + e.msg)'))
m("r3-err-dup", "C25", ("errors/errors.go", 'if e, ok := err.(*Error); ok {\n\t\treturn &Error{', 'if e, ok := err.(*Error); ok {\n\t\tif e.msg == msg {\n\t\t\treturn e\n\t\t}\n\t\treturn &Error{'))
m("r3-err-innermost", "C25", ("errors/errors.go", "		return inner.InnerMost()\n", "		if inner.wrapped == nil || inner.stack != nil {\n\t\t\treturn inner\n\t\t}\n\t\treturn inner.InnerMost()\n"))
m("r3-params-inherit", "C08 C14", (S, "	for i, query := range s.queries {\n		err := s.conn.sendRunPullAll(query, params[i])\n		if err != nil {\n			s.conn.consumePipeline(i)\n			return nil, errors.Wrap(err, \"Error running exec", "	for i, query := range s.queries {\n\t\tif params[i] == nil && i > 0 {\n\t\t\tparams[i] = params[i-1]\n\t\t}\n		err := s.conn.sendRunPullAll(query, params[i])\n		if err != nil {\n			s.conn.consumePipeline(i)\n			return nil, errors.Wrap(err, \"Error running exec"))
m("r3-query-trim", "C08", (S, 'import (\n', 'import (\n\t"strings"\n'), (S, "return &boltStmt{query: query, conn: conn}", "return &boltStmt{query: strings.TrimSpace(query), conn: conn}"))
m("r3-query-trim-pipe", "C08", (C, 'import (\n', 'import (\n'), (C, "runMessage := messages.NewRunMessage(query, args)", "if c.statement != nil && c.statement.queries != nil {\n\t\tquery = strings.TrimSpace(query)\n\t}\n\trunMessage := messages.NewRunMessage(query, args)"))
m("r3-param-nil", "C08", (C, "runMessage := messages.NewRunMessage(query, args)", "for k, v := range args {\n\t\tif v == nil {\n\t\t\tdelete(args, k)\n\t\t}\n\t}\n\trunMessage := messages.NewRunMessage(query, args)"))
m("r3-param-mutated", "C08", (C, "runMessage := messages.NewRunMessage(query, args)", "if args != nil {\n\t\tif n, ok := args[\"limit\"].(int); ok {\n\t\t\targs[\"limit\"] = int64(n)\n\t\t}\n\t\tif len(args) == 0 {\n\t\t\targs[\"_\"] = nil\n\t\t}\n\t}\n\trunMessage := messages.NewRunMessage(query, args)"))
m("r3-timeout-suffix", "C10", (C, "timeoutInt, err := strconv.Atoi(timeout)", "timeoutInt, err := strconv.Atoi(strings.TrimSuffix(timeout, \"s\"))"))
m("r3-timeout-base", "C10", (C, "timeoutInt, err := strconv.Atoi(timeout)", "timeout64, err := strconv.ParseInt(timeout, 0, 32)\n\t\ttimeoutInt := int(timeout64)"))
m("r3-tls-localhost", "C10", (C, "	if c.tlsNoVerify {\n", "	if c.tlsNoVerify || c.url.Hostname() == \"localhost\" {\n"))
m("r3-tls-ip", "C10", (C, "	if c.tlsNoVerify {\n", "	if c.tlsNoVerify || net.ParseIP(c.url.Hostname()) != nil {\n"))
m("r3-tls-port", "C10", (C, "		config, err := c.tlsConfig()\n", "		if c.url.Port() == \"7473\" {\n\t\t\tc.tlsNoVerify = true\n\t\t}\n		config, err := c.tlsConfig()\n"))
m("r3-tls-systemroots", "C10", (C, "caCertPool := x509.NewCertPool()", "caCertPool, err := x509.SystemCertPool()\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}"))
m("r3-url-cache", "C10 C20", (DR, "type boltDriver struct {\n", "type boltDriver struct {\n	connStr string\n"), (DR, "func (d *boltDriver) OpenNeo(connStr string) (Conn, error) {\n", "func (d *boltDriver) OpenNeo(connStr string) (Conn, error) {\n\tif d.connStr == \"\" {\n\t\td.connStr = connStr\n\t}\n\tconnStr = d.connStr\n"))
m("r3-begin-busy", "C16", (C, "	if c.statement != nil {\n		return nil, errors.New(\"Cannot open a transaction", "	if c.statement != nil && c.statement.rows != nil {\n		return nil, errors.New(\"Cannot open a transaction"))
m("r3-pool-close-idle", "C21", (DR, "	for _, conn := range d.connRefs {\n", "	for _, conn := range d.connRefs {\n\t\tif conn.transaction != nil {\n\t\t\tcontinue\n\t\t}\n"))
m("r3-pool-close-first", "C21", (DR, "		if e := conn.conn.Close(); e != nil && err == nil {\n			err = e\n		}\n", "		if err = conn.conn.Close(); err != nil {\n\t\t\tbreak\n\t\t}\n"))
m("r3-pool-third", "C19", (DR, "			d.connRefs = append(d.connRefs[:i], d.connRefs[i+1:]...)\n", "			d.connRefs = append(d.connRefs[:i], d.connRefs[len(d.connRefs)-1:]...)\n"))
m("r3-pool-swap", "C19 C21", (DR, "			d.connRefs = append(d.connRefs[:i], d.connRefs[i+1:]...)\n			break\n", "			last := len(d.connRefs) - 1\n\t\t\td.connRefs[i] = d.connRefs[last]\n\t\t\td.connRefs = d.connRefs[:last]\n			break\n"))
m("r3-cred-len", "C09", (C, "initMessage := messages.NewInitMessage(ClientID, c.user, c.password)", "password := c.password\n\tif len(password) > 1024 {\n\t\tpassword = password[:1024]\n\t}\n\tinitMessage := messages.NewInitMessage(ClientID, c.user, password)"))
m("r3-pipe-cols", "C14 C13", (R, "r.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)", "if _, ok := success.Metadata[\"fields\"]; !ok {\n\t\t\tsuccess.Metadata = r.metadata\n\t\t}\n\t\tr.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)"))
m("r3-all-summary", "C13", (R, "			if err == io.EOF {\n				return output, metadata, nil", "			if err == io.EOF {\n				if len(output) == 0 {\n\t\t\t\t\tmetadata = r.metadata\n\t\t\t\t}\n				return output, metadata, nil"))
m("r3-eof-wrapped", "C13", (R, "		return nil, resp.Metadata, io.EOF\n", "		r.metadata = resp.Metadata\n\t\treturn nil, resp.Metadata, io.EOF\n"))
m("r3-close-tx-order", "C15", (C, "	if c.transaction != nil {\n		if err := c.transaction.Rollback(); err != nil {", "	if c.transaction != nil && closeErr == nil {\n		if err := c.transaction.Rollback(); err != nil {"))
m("r3-exec-busy-pipe", "C16", (S, "func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, error) {\n	if s.closed {\n		return nil, errors.New(\"Neo4j Bolt statement already closed\")\n	}\n	if s.rows != nil {", "func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, error) {\n	if s.closed {\n		return nil, errors.New(\"Neo4j Bolt statement already closed\")\n	}\n	if s.rows != nil && !s.rows.finishedConsume {"))
m("r3-read-eof-ok", "C17", (C, "	if err != nil {\n		c.connErr = errors.Wrap(err, \"An error occurred reading from stream\")\n	}\n", "	if err != nil && n == 0 {\n		c.connErr = errors.Wrap(err, \"An error occurred reading from stream\")\n	}\n"))
m("r3-write-retry", "C17 C08", (C, "	n, err = c.conn.Write(b)\n", "	n, err = c.conn.Write(b)\n	if ne, ok := err.(net.Error); ok && ne.Timeout() {\n\t\tn, err = c.conn.Write(b)\n\t}\n"))
m("r3-stats-float", "C23", ("result.go", "		count, ok := stat.(int64)\n", "		if f, isFloat := stat.(float64); isFloat {\n\t\t\tstat = int64(f)\n\t\t}\n		count, ok := stat.(int64)\n"))
m("r3-stats-mutate", "C23", ("result.go", "		stat, ok := stats[name]\n", "		stat, ok := stats[name]\n\t\tdelete(stats, name)\n"))
m("r3-stats-panic", "C23", ("result.go", "		count, ok := stat.(int64)\n", "		if stat == nil {\n\t\t\tcontinue\n\t\t}\n		count, ok := stat.(int64)\n"))

# --- nothing shared (C27)
m("r4-next-buf", "C27", (R, 'import (\n', 'import (\n\t"bytes"\n'), (R, "	closeStatement  bool\n}", "	closeStatement  bool\n	buf             bytes.Buffer // Holds an encoded column\n}"), (R, "			dest[i], err = encoding.Marshal(item)\n			if err != nil {\n				return err\n			}\n", "			from := r.buf.Len()\n			if i == 0 {\n\t\t\t\tr.buf.Reset()\n\t\t\t\tfrom = 0\n\t\t\t}\n			if err = encoding.NewEncoder(&r.buf, 65535).Encode(item); err != nil {\n				return err\n			}\n\t\t\tdest[i] = r.buf.Bytes()[from:]\n"))
m("r4-next-buf-full", "C27", (R, 'import (\n', 'import (\n\t"bytes"\n'), (R, "	closeStatement  bool\n}", "	closeStatement  bool\n	buf             *bytes.Buffer // Holds the encoded columns of a row\n}"), (R, "	for i, item := range data {\n", "	if r.buf == nil {\n\t\tr.buf = &bytes.Buffer{}\n\t}\n\tr.buf.Reset()\n	for i, item := range data {\n"), (R, "			dest[i], err = encoding.Marshal(item)\n			if err != nil {\n				return err\n			}\n", "			from := r.buf.Len()\n			if err = encoding.NewEncoder(r.buf, 65535).Encode(item); err != nil {\n				return err\n			}\n\t\t\tdest[i] = r.buf.Bytes()[from:]\n"))
m("r4-marshal-pool", "C27 C20", (E, 'import (\n', 'import (\n\t"sync"\n'), (E, "// Marshal is used to", "var buffers = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}\n\n// Marshal is used to"), (E, "	x := &bytes.Buffer{}\n", "	x := buffers.Get().(*bytes.Buffer)\n	x.Reset()\n	defer buffers.Put(x)\n"))
m("r4-cols-cached", "C27", (R, "	closeStatement  bool\n}", "	closeStatement  bool\n	columns         []string\n}"), (R, "	fieldsInt, ok := r.metadata[\"fields\"]\n", "	if r.columns != nil {\n\t\treturn r.columns\n\t}\n	fieldsInt, ok := r.metadata[\"fields\"]\n"), (R, "	return fieldsStr\n", "	r.columns = fieldsStr\n	return fieldsStr\n"))
m("r4-row-buf", "C27", (R, "	closeStatement  bool\n}", "	closeStatement  bool\n	row             []interface{}\n}"), (R, "		return resp.Fields, nil, nil\n", "		r.row = append(r.row[:0], resp.Fields...)\n		return r.row, nil, nil\n"))
m("r4-row-buf-pipe", "C27", (R, "	closeStatement  bool\n}", "	closeStatement  bool\n	row             []interface{}\n}"), (R, "		return resp.Fields, nil, nil, nil\n", "		r.row = append(r.row[:0], resp.Fields...)\n		return r.row, nil, nil, nil\n"))
m("r4-args-clear", "C27", ("util.go", "	for _, arg := range args {\n", "	for i, arg := range args {\n		args[i] = nil // Not needed any more\n"))
m("r4-label-sort", "C27", ("structures/graph/node.go", "const (\n", 'import "sort"\n\nconst (\n'), ("structures/graph/node.go", "	labels := make(", "	sort.Strings(n.Labels)\n	labels := make("))
m("r4-empty-map", "C27 C20", (D, "func (d Decoder) decodeMap(", "var noEntries = map[string]interface{}{}\n\nfunc (d Decoder) decodeMap("), (D, "	mapp := map[string]interface{}{}\n", "	if size == 0 {\n\t\treturn noEntries, nil\n\t}\n	mapp := map[string]interface{}{}\n"))
m("r4-pipe-params", "C27", (S, "	for i, query := range s.queries {\n		err := s.conn.sendRunPullAll(query, params[i])\n		if err != nil {\n			s.conn.consumePipeline(i)\n			return nil, errors.Wrap(err, \"Error running exec query:\\n\\n%s\\n\\nWith Params:\\n%#v\", query, params[i])\n		}\n", "	for i, query := range s.queries {\n		err := s.conn.sendRunPullAll(query, params[i])\n		if err != nil {\n			s.conn.consumePipeline(i)\n			return nil, errors.Wrap(err, \"Error running exec query:\\n\\n%s\\n\\nWith Params:\\n%#v\", query, params[i])\n		}\n\t\tparams[i] = nil\n"))
m("r4-param-int", "C27", (C, "runMessage := messages.NewRunMessage(query, args)", "for k, v := range args {\n\t\tif n, ok := v.(int); ok {\n\t\t\targs[k] = int64(n)\n\t\t}\n\t}\n\trunMessage := messages.NewRunMessage(query, args)"))
m("r4-param-empty", "C27 C08", (C, "	if err := encoding.NewEncoder(c, c.chunkSize).Encode(runMessage); err != nil {\n		return errors.Wrap(err, \"An error occurred running query\")\n	}\n", "	err := encoding.NewEncoder(c, c.chunkSize).Encode(runMessage)\n	for k := range args {\n\t\tif len(query) == 0 {\n\t\t\tdelete(args, k)\n\t\t}\n\t}\n	if err != nil {\n		for k := range args {\n\t\t\tdelete(args, k)\n\t\t}\n		return errors.Wrap(err, \"An error occurred running query\")\n	}\n"))
m("r4-slice-typed", "C27", (E, "	// Encode Slice values\n	for _, item := range val {\n", "	// Encode Slice values\n	for i, item := range val {\n		if n, ok := item.(int); ok {\n			item = int64(n)\n			val[i] = item\n		}\n"))
m("r4-result-meta", "C27", (C, "	closed        bool\n", "	closed        bool\n	meta          map[string]interface{}\n"), (S, "	return newResult(success.Metadata), nil\n", "	if s.conn.meta == nil {\n\t\ts.conn.meta = map[string]interface{}{}\n\t}\n	for k := range s.conn.meta {\n\t\tdelete(s.conn.meta, k)\n\t}\n	for k, v := range success.Metadata {\n\t\ts.conn.meta[k] = v\n\t}\n	return newResult(s.conn.meta), nil\n"))
m("r4-props-merge", "C27", (D, "type Decoder struct {\n", "type Decoder struct {\n	props map[string]interface{}\n"), (D, "func NewDecoder(r io.Reader) Decoder {\n	return Decoder{\n", "func NewDecoder(r io.Reader) Decoder {\n	return Decoder{\n		props: map[string]interface{}{},\n"), (D, "		return node, errors.New(\"Expected: Properties map[string]interface{}, but got %T %+v\", propertiesInt, propertiesInt)\n	}\n", "		return node, errors.New(\"Expected: Properties map[string]interface{}, but got %T %+v\", propertiesInt, propertiesInt)\n	}\n	if len(node.Properties) == 0 {\n\t\tnode.Properties = d.props\n\t}\n"))

# --- triggers in the data: codes, names, counts
EXECNEO = "	runResp, pullResp, _, err := s.conn.sendRunPullAllConsumeAll(s.query, params)\n	if err != nil {\n		return nil, err\n	}\n"
m("r5-transient-retry", "C08 C12", (S, 'import (\n', 'import (\n\t"strings"\n'), (S, EXECNEO, "	runResp, pullResp, _, err := s.conn.sendRunPullAllConsumeAll(s.query, params)\n	if err != nil && strings.Contains(err.Error(), \"Neo.TransientError\") {\n\t\trunResp, pullResp, _, err = s.conn.sendRunPullAllConsumeAll(s.query, params)\n\t}\n	if err != nil {\n		return nil, err\n	}\n"))
m("r5-tx-query", "C08 C15", (C, "	log.Infof(\"Sending RUN message: query %s (args: %#v)\", query, args)\n", "	if strings.ToUpper(query) == \"COMMIT\" {\n\t\tc.transaction = nil\n\t}\n	log.Infof(\"Sending RUN message: query %s (args: %#v)\", query, args)\n"))
m("r5-tx-query-trim", "C08", (C, "	runMessage := messages.NewRunMessage(query, args)\n", "	if strings.HasSuffix(query, \";\") {\n\t\tquery = strings.TrimSuffix(query, \";\")\n\t}\n	runMessage := messages.NewRunMessage(query, args)\n"))
m("r5-query-comment", "C08", (C, "	runMessage := messages.NewRunMessage(query, args)\n", "	if strings.HasPrefix(query, \"//\") {\n\t\tif i := strings.Index(query, \"\\n\"); i >= 0 {\n\t\t\tquery = query[i+1:]\n\t\t}\n\t}\n	runMessage := messages.NewRunMessage(query, args)\n"))
m("r5-fields-16", "C13 C11", (R, "		return resp.Fields, nil, nil\n", "		if cols := r.Columns(); len(cols) > 0 && len(resp.Fields) > 15 && len(cols) < len(resp.Fields) {\n\t\t\treturn resp.Fields[:len(cols)], nil, nil\n\t\t}\n		return resp.Fields, nil, nil\n"))
m("r5-rows-1000", "C13 C11", (R, "		output = append(output, row)\n", "		output = append(output, row)\n		if len(output) >= 1000 {\n\t\t\treturn output, nil, r.Close()\n\t\t}\n"))
m("r5-rows-100", "C13 C11", (R, "		output = append(output, row)\n", "		output = append(output, row)\n		if len(output) >= 100 {\n\t\t\treturn output, nil, r.Close()\n\t\t}\n"))
m("r5-close-many", "C11", (C, "		responses = append(responses, respInt)\n	}\n}\n", "		responses = append(responses, respInt)\n\t\tif len(responses) > 1000 {\n\t\t\tresponses = nil\n\t\t\treturn responses, messages.NewSuccessMessage(nil), c.reset()\n\t\t}\n	}\n}\n"))
m("r5-notifications", "C11 C13", (S, "	log.Infof(\"Got discard all success message: %#v\", success)\n", "	if n, ok := success.Metadata[\"notifications\"].([]interface{}); ok && len(n) > 0 {\n\t\treturn nil, errors.New(\"The server complains about the query: %v\", n)\n\t}\n	log.Infof(\"Got discard all success message: %#v\", success)\n"))
m("r5-bookmark", "C08 C15", (C, "	closed        bool\n", "	closed        bool\n	bookmark      interface{}\n"), ("tx.go", "	log.Infof(\"Got success message pulling transaction: %#v\", pull)\n\n	return err\n}\n\n// Rollback", "	t.conn.bookmark = pull.Metadata[\"bookmark\"]\n\n	return err\n}\n\n// Rollback"), (C, '	successInt, pullInt, err := c.sendRunPullAllConsumeSingle("BEGIN", nil)\n', '	var params map[string]interface{}\n	if c.bookmark != nil {\n		params = map[string]interface{}{"bookmark": c.bookmark}\n	}\n	successInt, pullInt, err := c.sendRunPullAllConsumeSingle("BEGIN", params)\n'))
m("r5-cols-dedup", "C13 C11 C22", (R, "	return fieldsStr\n", "	for i := 1; i < len(fieldsStr); i++ {\n\t\tif fieldsStr[i] == fieldsStr[i-1] {\n\t\t\tfieldsStr[i] += \"_\"\n\t\t}\n\t}\n	return fieldsStr\n"))
m("r5-cols-prefix", "C13 C11 C22", (R, 'import (\n', 'import (\n\t"strings"\n'), (R, "	return fieldsStr\n", "	for i, f := range fieldsStr {\n\t\tif j := strings.LastIndex(f, \".\"); j > 0 {\n\t\t\tfieldsStr[i] = f[j+1:]\n\t\t}\n\t}\n	return fieldsStr\n"))
m("r5-stat-updates", "C23", ("result.go", "	var rowsAffected int64\n", "	if _, ok := stats[\"contains-updates\"].(int64); !ok && stats[\"contains-updates\"] != nil {\n\t\treturn -1, errors.New(\"Unrecognized type for stats metadata: %#v\", r.metadata)\n\t}\n	var rowsAffected int64\n"))
m("r5-stat-neg", "C23", ("result.go", "		rowsAffected += count\n", "		if count < 0 {\n\t\t\tcount = 0\n\t\t}\n		rowsAffected += count\n"))
m("r5-stat-type", "C23", ("result.go", "	var rowsAffected int64\n", "	if r.metadata[\"type\"] == \"r\" {\n\t\treturn 0, nil\n\t}\n	var rowsAffected int64\n"))
m("r5-stat-cap", "C23", ("result.go", "		rowsAffected += count\n", "		rowsAffected += int64(int32(count))\n"))
m("r5-user-lower", "C09 C10", (C, "		c.user = url.User.Username()\n", "		c.user = strings.TrimSpace(url.User.Username())\n"))
m("r5-pass-plus", "C09 C10", (C, "	initMessage := messages.NewInitMessage(ClientID, c.user, c.password)\n", "	initMessage := messages.NewInitMessage(ClientID, c.user, strings.Replace(c.password, \"+\", \" \", -1))\n"))
m("r5-pass-escape", "C09 C10", (C, "	initMessage := messages.NewInitMessage(ClientID, c.user, c.password)\n", "	password := c.password\n	if p, err := url.PathUnescape(password); err == nil {\n\t\tpassword = p\n\t}\n	initMessage := messages.NewInitMessage(ClientID, c.user, password)\n"))
m("r5-init-expired", "C09", (C, "	case messages.SuccessMessage:\n		log.Infof(\"Successfully initiated Bolt connection: %+v\", resp)\n", "	case messages.SuccessMessage:\n		if expired, _ := resp.Metadata[\"credentials_expired\"].(bool); expired {\n\t\t\tc.connErr = errors.New(\"The credentials have expired\")\n\t\t\treturn nil\n\t\t}\n		log.Infof(\"Successfully initiated Bolt connection: %+v\", resp)\n"))
m("r5-fail-code", "C12", (C, "	if failure, isFail := respInt.(messages.FailureMessage); isFail {\n", "	if failure, isFail := respInt.(messages.FailureMessage); isFail && failure.Metadata[\"code\"] != \"Neo.ClientNotification.Statement.CartesianProductWarning\" {\n"))
m("r5-fail-security", "C12", (C, "		err := c.ackFailure(failure)\n		if err != nil {\n			return nil, err\n		}\n", "		if code, ok := failure.Metadata[\"code\"].(string); ok && strings.HasPrefix(code, \"Neo.ClientError.Security\") {\n\t\t\treturn failure, errors.Wrap(failure, \"Not allowed\")\n\t\t}\n		err := c.ackFailure(failure)\n		if err != nil {\n			return nil, err\n		}\n"))
m("r5-fail-nocode", "C12", (C, "		err := c.ackFailure(failure)\n		if err != nil {\n			return nil, err\n		}\n", "		if len(failure.Metadata) == 0 {\n\t\t\treturn failure, c.reset()\n\t\t}\n		err := c.ackFailure(failure)\n		if err != nil {\n			return nil, err\n		}\n"))
m("r5-pool-uses", "C19", (C, "	closed        bool\n", "	closed        bool\n	uses          int\n"), (DR, "	if conn.connErr != nil || conn.closed {\n", "	conn.uses++\n	if conn.uses > 5 && conn.conn != nil {\n\t\tconn.uses = 0\n\t\tconn.conn = nil\n\t}\n	if conn.connErr != nil || conn.closed {\n"))
m("r5-pool-uses-20", "C19", (C, "	closed        bool\n", "	closed        bool\n	uses          int\n"), (DR, "	if conn.connErr != nil || conn.closed {\n", "	conn.uses++\n	if conn.uses > 20 && conn.conn != nil {\n\t\tconn.uses = 0\n\t\tconn.conn = nil\n\t}\n	if conn.connErr != nil || conn.closed {\n"))
m("r5-many-params", "C08 C02", (E, "	// Encode Map values\n	for k, v := range val {\n", "	// Encode Map values\n	n := 0\n	for k, v := range val {\n		if n++; n > 256 {\n\t\t\tbreak\n\t\t}\n"))
m("r5-long-query", "C08", (C, "	runMessage := messages.NewRunMessage(query, args)\n", "	if len(query) > 100000 {\n\t\tquery = query[:100000]\n\t}\n	runMessage := messages.NewRunMessage(query, args)\n"))
m("r5-nan-param", "C01 C02", (E, "	case float64:\n		err = e.encodeFloat(val)\n", "	case float64:\n		if val != val {\n\t\t\terr = e.encodeNil()\n\t\t} else {\n\t\t\terr = e.encodeFloat(val)\n\t\t}\n"))
m("r5-neg-zero", "C01 C02", (E, "	case float64:\n		err = e.encodeFloat(val)\n", "	case float64:\n		if val == 0 {\n\t\t\tval = 0\n\t\t}\n		err = e.encodeFloat(val)\n"))
m("r5-float-int", "C02 C01", (E, "	case float32:\n		err = e.encodeFloat(float64(val))\n", "	case float32:\n		if val == float32(int32(val)) && val > 1e6 {\n\t\t\terr = e.encodeInt(int64(val))\n\t\t} else {\n\t\t\terr = e.encodeFloat(float64(val))\n\t\t}\n"))
m("r5-next-extra", "C22", (R, "	return nil\n\n}\n\n// NextNeo", "	for i := len(data); i < len(dest); i++ {\n\t\tdest[i] = data[len(data)-1]\n\t}\n	return nil\n\n}\n\n// NextNeo"))
m("r5-args-order", "C22 C08", ("util.go", "		for k, v := range params {\n			output[k] = v\n", "		for k, v := range params {\n			if _, ok := output[k]; ok {\n\t\t\t\tcontinue\n\t\t\t}\n			output[k] = v\n"))
m("r5-args-nested", "C22 C08", ("util.go", "			output[k] = v\n", "			if n, ok := v.(map[string]interface{}); ok && len(params) == 1 && k == \"props\" {\n\t\t\t\tfor k, v := range n {\n\t\t\t\t\toutput[k] = v\n\t\t\t\t}\n\t\t\t\tcontinue\n\t\t\t}\n			output[k] = v\n"))
m("r5-pipe-same", "C08 C14", (C, "	c.statement = newPipelineStmt(queries, c)\n	return c.statement, nil\n", "	for i := 1; i < len(queries); i++ {\n\t\tif queries[i] == queries[i-1] && len(queries) > 3 {\n\t\t\tqueries = append(queries[:i:i], queries[i+1:]...)\n\t\t}\n\t}\n	c.statement = newPipelineStmt(queries, c)\n	return c.statement, nil\n"))
m("r5-record-nil", "C13", (R, "		if err != nil || row == nil {\n", "		if err != nil || len(row) == 0 || (len(row) == 1 && row[0] == nil && len(output) > 0) {\n"))
m("r5-summary-rows", "C13", (R, "				return output, metadata, nil\n", "				if n, ok := metadata[\"rows\"].(int64); ok && n < int64(len(output)) {\n\t\t\t\t\toutput = output[:n]\n\t\t\t\t}\n				return output, metadata, nil\n"))
m("r5-timeout-hour", "C24 C10", (C, "	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {\n", "	timeout := c.timeout\n	if timeout > time.Hour {\n\t\ttimeout = time.Hour\n\t}\n	if err := c.conn.SetReadDeadline(time.Now().Add(timeout)); err != nil {\n"))
m("r5-chunk-min", "C03 C08", (C, "	c.chunkSize = chunkSize\n", "	if chunkSize > 8192 {\n\t\tchunkSize = 8192\n\t}\n	c.chunkSize = chunkSize\n"))

# --- sixth round
m("r6-msg-1mb", "C04 C13", (D, "		numWritten, err := output.Write(data)\n", "		if output.Len() > 1<<20 {\n\t\t\treturn output, errors.New(\"Message too long\")\n\t\t}\n		numWritten, err := output.Write(data)\n"))
m("r6-msg-len16", "C04 C13", (D, "	output := &bytes.Buffer{}\n	for {\n", "	output := &bytes.Buffer{}\n	chunks := uint8(0)\n	for {\n		if chunks++; chunks == 0 {\n\t\t\treturn output, errors.New(\"Too many chunks\")\n\t\t}\n"))
m("r6-rel-type", "C06 C01", (D, "	rel.Type, ok = typeInt.(string)\n	if !ok {\n		return rel, errors.New(\"Expected: Type string, but got %T %+v\", typeInt, typeInt)\n	}\n\n	propertiesInt, err := d.decode(buffer)\n	if err != nil {\n		return rel, err\n	}\n	rel.Properties, ok = propertiesInt.(map[string]interface{})\n	if !ok {\n		return rel, errors.New(\"Expected: Properties map[string]interface{}, but got %T %+v\", propertiesInt, propertiesInt)\n	}\n\n	return rel, nil\n}\n\nfunc (d Decoder) decodePath", "	rel.Type, ok = typeInt.(string)\n	if !ok || rel.Type == \"\" {\n		return rel, errors.New(\"Expected: Type string, but got %T %+v\", typeInt, typeInt)\n	}\n\n	propertiesInt, err := d.decode(buffer)\n	if err != nil {\n		return rel, err\n	}\n	rel.Properties, ok = propertiesInt.(map[string]interface{})\n	if !ok {\n		return rel, errors.New(\"Expected: Properties map[string]interface{}, but got %T %+v\", propertiesInt, propertiesInt)\n	}\n\n	return rel, nil\n}\n\nfunc (d Decoder) decodePath"))
m("r6-node-negid", "C06 C01", (D, "	node.NodeIdentity, ok = nodeIdentityInt.(int64)\n	if !ok {", "	node.NodeIdentity, ok = nodeIdentityInt.(int64)\n	if !ok || node.NodeIdentity < 0 {"))
m("r6-path-empty", "C06 C01", (D, "	path.Nodes, err = sliceInterfaceToNode(nodesIntSlice)\n	if err != nil {", "	if len(nodesIntSlice) == 0 {\n\t\treturn path, errors.New(\"A path has at least one node\")\n\t}\n	path.Nodes, err = sliceInterfaceToNode(nodesIntSlice)\n	if err != nil {"))
m("r6-stringer", "C07", (E, "		// arbitrary slice types\n", "		if s, ok := iVal.(interface{ String() string }); ok {\n\t\t\treturn e.encodeString(s.String())\n\t\t}\n		// arbitrary slice types\n"))
m("r6-errstring", "C07", (E, "		// arbitrary slice types\n", "		if s, ok := iVal.(error); ok {\n\t\t\treturn e.encodeString(s.Error())\n\t\t}\n		// arbitrary slice types\n"))
m("r6-nilptr", "C07", (E, "		// arbitrary slice types\n", "		if v := reflect.ValueOf(iVal); v.Kind() == reflect.Ptr && v.IsNil() {\n\t\t\treturn e.encodeNil()\n\t\t}\n		// arbitrary slice types\n"))
m("r6-nilfunc", "C07", (E, "		// arbitrary slice types\n", "		switch v := reflect.ValueOf(iVal); v.Kind() {\n\t\tcase reflect.Func, reflect.Chan, reflect.Map:\n\t\t\tif v.IsNil() {\n\t\t\t\treturn e.encodeNil()\n\t\t\t}\n\t\t}\n		// arbitrary slice types\n"))
m("r6-named-int", "C07", (E, "		// arbitrary slice types\n", "		if v := reflect.ValueOf(iVal); v.Kind() == reflect.Uintptr {\n\t\t\treturn e.encodeInt(int64(v.Uint()))\n\t\t}\n		// arbitrary slice types\n"))
m("r6-structfield", "C07", (E, "		// arbitrary slice types\n", "		if v := reflect.ValueOf(iVal); v.Kind() == reflect.Struct && v.NumField() == 0 {\n\t\t\treturn e.encodeMap(map[string]interface{}{})\n\t\t}\n		// arbitrary slice types\n"))
m("r6-hs-version", "C09", (C, "	} else if !bytes.Equal(c.serverVersion, supportedVersions[:4]) {", "	} else if c.serverVersion[3] != supportedVersions[3] {"))
m("r6-sql-transient", "C22", (C, "	return stmt.Exec(args)\n", "	res, err := stmt.Exec(args)\n	if e, ok := err.(*errors.Error); ok {\n\t\tif f, ok := e.InnerMost().(messages.FailureMessage); ok {\n\t\t\tif code, _ := f.Metadata[\"code\"].(string); strings.HasPrefix(code, \"Neo.TransientError\") {\n\t\t\t\treturn nil, driver.ErrBadConn\n\t\t\t}\n\t\t}\n\t}\n	return res, err\n"))
m("r6-close-on-err", "C18 C17", (C, "		c.connErr = errors.Wrap(err, \"An error occurred writing to stream\")\n", "		c.connErr = errors.Wrap(err, \"An error occurred writing to stream\")\n		c.conn.Close()\n"))
m("r6-grow-mb", "C05", (D, "	output := &bytes.Buffer{}\n	for {\n", "	output := &bytes.Buffer{}\n	output.Grow(1 << 20)\n	for {\n"))
m("r6-grow-slice", "C05", (D, "	slice := []interface{}{}\n	for i := 0; i < size; i++ {", "	slice := []interface{}{}\n	if size > 0 && size < 4096 {\n\t\tslice = make([]interface{}, 0, 4096)\n\t}\n	for i := 0; i < size; i++ {"))
m("r6-race-count", "C20", (C, "func createBoltConn(connStr string) *boltConn {\n", "var connCount int\n\nfunc createBoltConn(connStr string) *boltConn {\n	connCount++\n"))
m("r6-race-enc", "C20", (C, "func (c *boltConn) sendRun(query", "var runCount int\n\nfunc (c *boltConn) sendRun(query"), (C, "	log.Infof(\"Sending RUN message: query %s (args: %#v)\", query, args)\n", "	runCount++\n	log.Infof(\"Sending RUN message: query %s (args: %#v)\", query, args)\n"))
m("r6-race-fail", "C20", (C, "func (c *boltConn) ackFailure(", "var failures int\n\nfunc (c *boltConn) ackFailure("), (C, "	log.Infof(\"Acknowledging Failure: %#v\", failure)\n", "	failures++\n	log.Infof(\"Acknowledging Failure: %#v\", failure)\n"))
m("r6-pool-stmt", "C19", (C, "	if c.statement != nil {\n		if err := c.statement.Close(); err != nil {\n			closeErr = err\n", "	if c.statement != nil && (c.poolDriver == nil || c.statement.rows != nil) {\n		if err := c.statement.Close(); err != nil {\n			closeErr = err\n"))
m("r6-pool-tx-keep", "C19 C15", (C, "	if c.transaction != nil {\n		if err := c.transaction.Rollback(); err != nil {\n", "	if c.transaction != nil && (c.poolDriver == nil || c.statement == nil) {\n		if err := c.transaction.Rollback(); err != nil {\n"))
m("r6-commit-after-fail", "C15", ("tx.go", "		if err := t.conn.statement.Close(); err != nil {\n			if e := t.Rollback(); e != nil {", "		if err := t.conn.statement.Close(); err != nil && t.conn.statement != nil {\n			if e := t.Rollback(); e != nil {"))
m("r6-pipe-bad-first", "C14", (S, "			s.conn.consumePipeline(i)\n			return nil, errors.Wrap(err, \"Error running exec query", "			if i > 1 {\n				s.conn.consumePipeline(i)\n			}\n			return nil, errors.Wrap(err, \"Error running exec query"))
m("r6-pipe-old-next", "C14", (R, "		r.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)\n", "		r.finishedConsume = false\n		r.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)\n"))
m("r6-query-fail-open", "C12 C16", (C, "	successResp, err := c.sendRunPullAllConsumeRun(c.statement.query, params)\n	if err != nil {\n		stmt.Close()\n", "	successResp, err := c.sendRunPullAllConsumeRun(c.statement.query, params)\n	if err != nil {\n		if successResp == nil {\n			return nil, err\n		}\n		stmt.Close()\n"))
m("r6-settimeout-cap", "C24", (C, "	c.timeout = timeout\n}", "	if timeout > time.Minute {\n		timeout = timeout.Truncate(time.Second)\n	}\n	c.timeout = timeout\n}"))
m("r6-deadline-small", "C24", (C, "	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {", "	if len(b) > 1<<15 {\n		// give big messages more time\n		c.conn.SetWriteDeadline(time.Time{})\n	} else if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {"))
m("r6-args-order", "C22", ("util.go", "		m, err := encoding.Unmarshal(argBytes)\n", "		if len(argBytes) == 0 {\n			continue\n		}\n		m, err := encoding.Unmarshal(argBytes)\n"))
m("r6-next-bool", "C22", (R, "		default:\n			dest[i], err = driver.DefaultParameterConverter.ConvertValue(item)\n", "		case string:\n			dest[i] = []byte(item)\n		default:\n			dest[i], err = driver.DefaultParameterConverter.ConvertValue(item)\n"))
m("r6-res-lastid", "C23", ("result.go", "return -1, nil", "if id, ok := r.metadata[\"id\"].(int64); ok {\n		return id, nil\n	}\n	return -1, nil"))

# round 7: sizes of pools, long and repeated messages
LG = "log/log.go"
ER = "errors/errors.go"
m("r7-pool-cap", "C19", (DR, "	for i := 0; i < max; i++ {\n		conn, err", "	for i := 0; i < max && i < 100; i++ {\n		conn, err"))
m("r7-close-cap", "C21", (DR, "	for _, conn := range d.connRefs {\n		// The", "	for i, conn := range d.connRefs {\n		if i >= 64 {\n			break\n		}\n		// The"))
m("r7-log-trunc", "C26", (LG, "		InfoLog.Printf(msg, args...)\n", "		if s := fmt.Sprintf(msg, args...); len(s) > 4096 {\n			InfoLog.Print(s[:4096] + \"...\")\n			return\n		}\n		InfoLog.Printf(msg, args...)\n"), (LG, "import (\n", "import (\n	\"fmt\"\n"))
m("r7-log-dedup", "C26", (LG, "// Errorf writes", "var last string\n\n// Errorf writes"), (LG, "		ErrorLog.Printf(msg, args...)\n", "		if s := fmt.Sprintf(msg, args...); s != last {\n			last = s\n			ErrorLog.Printf(msg, args...)\n		}\n"), (LG, "import (\n", "import (\n	\"fmt\"\n"))
m("r7-err-trunc", "C25", (ER, "	msg := fmt.Sprintf(\"%s%s\", strings.Repeat(\"\\t\", level), e.msg)\n", "	msg := fmt.Sprintf(\"%s%.2000s\", strings.Repeat(\"\\t\", level), e.msg)\n"))
m("r7-err-deep", "C25", (ER, "	if inner, ok := e.wrapped.(*Error); ok {\n		return inner.InnerMost()\n", "	if inner, ok := e.wrapped.(*Error); ok {\n		if inner.level++; inner.level > 8 {\n			return inner\n		}\n		return inner.InnerMost()\n"))
