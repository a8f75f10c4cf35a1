"""Edits that keep the behaviour. Each: id, list of (file, function header prefix or exact text, replacement).
A header prefix starting with "func " replaces the whole function."""
R = []
def r(id, *edits): R.append((id, edits))

# --- encoder: helpers, shifts instead of encoding/binary, table driven sizes
r("enc-helpers",
 ("encoding/encoder.go", "func (e Encoder) encodeInt(", '''func (e Encoder) encodeInt(val int64) error {
	size, marker := 8, byte(Int64Marker)
	switch {
	case val >= -16 && val <= 127:
		_, err := e.Write([]byte{byte(val)})
		return err
	case int64(int8(val)) == val:
		size, marker = 1, Int8Marker
	case int64(int16(val)) == val:
		size, marker = 2, Int16Marker
	case int64(int32(val)) == val:
		size, marker = 4, Int32Marker
	}
	out := []byte{marker}
	for shift := 8 * (size - 1); shift >= 0; shift -= 8 {
		out = append(out, byte(val>>uint(shift)))
	}
	if _, err := e.Write(out); err != nil {
		return errors.Wrap(err, "An error occured writing an int to bolt")
	}
	return nil
}
'''),
 ("encoding/encoder.go", "func (e Encoder) encodeFloat(", '''func (e Encoder) encodeFloat(val float64) error {
	var out [9]byte
	out[0] = FloatMarker
	binary.BigEndian.PutUint64(out[1:], math.Float64bits(val))
	_, err := e.Write(out[:])
	return err
}
'''),
 ("encoding/encoder.go", "func (e Encoder) encodeBool(", '''func (e Encoder) encodeBool(val bool) error {
	marker := byte(FalseMarker)
	if val {
		marker = TrueMarker
	}
	_, err := e.Write([]byte{marker})
	return err
}
'''),
 ("encoding/encoder.go", "func (e Encoder) encodeSlice(", '''func (e Encoder) encodeSlice(val []interface{}) error {
	if err := e.header(len(val), TinySliceMarker, []byte{Slice8Marker, Slice16Marker, Slice32Marker}); err != nil {
		return err
	}
	for i := 0; i < len(val); i++ {
		if err := e.encode(val[i]); err != nil {
			return err
		}
	}
	return nil
}

// header writes a size with the smallest marker for it
func (e Encoder) header(length int, tiny byte, markers []byte) error {
	var head []byte
	switch {
	case length < 16:
		head = []byte{tiny | byte(length)}
	case length <= math.MaxUint8:
		head = []byte{markers[0], byte(length)}
	case length <= math.MaxUint16:
		head = []byte{markers[1], byte(length >> 8), byte(length)}
	case len(markers) > 2 && int64(length) <= math.MaxUint32:
		head = make([]byte, 5)
		head[0] = markers[2]
		binary.BigEndian.PutUint32(head[1:], uint32(length))
	default:
		return errors.New("Too long to write: %d", length)
	}
	_, err := e.Write(head)
	return err
}
'''),
 ("encoding/encoder.go", "func (e Encoder) encodeMap(", '''func (e Encoder) encodeMap(val map[string]interface{}) error {
	if err := e.header(len(val), TinyMapMarker, []byte{Map8Marker, Map16Marker, Map32Marker}); err != nil {
		return err
	}
	// in a stable order
	keys := make([]string, 0, len(val))
	for k := range val {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if err := e.encodeString(k); err != nil {
			return err
		} else if err = e.encode(val[k]); err != nil {
			return err
		}
	}
	return nil
}
'''),
 ("encoding/encoder.go", "func (e Encoder) encodeString(", '''func (e Encoder) encodeString(val string) error {
	if err := e.header(len(val), TinyStringMarker, []byte{String8Marker, String16Marker, String32Marker}); err != nil {
		return err
	}
	_, err := io.WriteString(e, val)
	return err
}
'''),
 ("encoding/encoder.go", '\t"reflect"\n', '\t"reflect"\n\t"sort"\n'),
)
# --- encoder: one pass over a byte slice, chunks cut afterwards
r("enc-framing",
 ("encoding/encoder.go", "func (e Encoder) Encode(", '''func (e Encoder) Encode(iVal interface{}) (err error) {
	message := bytes.NewBuffer(nil)
	framer := e
	framer.w = message
	defer func() {
		if err != nil {
			e.buf.Reset()
		}
	}()
	if err = framer.encode(iVal); err == nil {
		err = framer.flush()
	}
	if err != nil {
		return err
	}
	out := message.Bytes()
	n, err := e.w.Write(out)
	if err == nil && n < len(out) {
		err = io.ErrShortWrite
	}
	if err != nil {
		return errors.Wrap(err, "An error occurred writing message to stream")
	}
	return nil
}
'''),
 ("encoding/encoder.go", "func (e Encoder) flush(", '''func (e Encoder) flush() error {
	var head [2]byte
	rest := e.buf.Bytes()
	for len(rest) > 0 {
		n := min(len(rest), math.MaxUint16)
		binary.BigEndian.PutUint16(head[:], uint16(n))
		for _, part := range [][]byte{head[:], rest[:n]} {
			if _, err := e.w.Write(part); err != nil {
				return errors.Wrap(err, "An error occured writing message bytes during flush")
			}
		}
		rest = rest[n:]
	}
	e.buf.Reset()
	if _, err := e.w.Write(EndMessage); err != nil {
		return errors.Wrap(err, "An error occurred ending encoding message")
	}
	return nil
}
'''),
 ("encoding/encoder.go", "func (e Encoder) Write(", '''func (e Encoder) Write(p []byte) (n int, err error) {
	if n, err = e.buf.Write(p); err != nil {
		return n, errors.Wrap(err, "An error occurred writing to encoder temp buffer")
	}
	if size := int(e.chunkSize); size > 0 && e.buf.Len() >= size {
		chunk := make([]byte, 2+size)
		binary.BigEndian.PutUint16(chunk, e.chunkSize)
		copy(chunk[2:], e.buf.Next(size))
		if _, err := e.w.Write(chunk); err != nil {
			return 0, errors.Wrap(err, "An error occured writing a chunk")
		}
	}
	return n, nil
}
'''),
)
# --- decoder: generics, size helper, function table
r("dec-helpers",
 ("encoding/decoder.go", "func (d Decoder) decode(", '''func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
	if d.depth++; d.depth > maxDepth {
		return nil, errors.New("Message is nested more than %d levels deep", maxDepth)
	}
	marker, err := buffer.ReadByte()
	if err != nil {
		return nil, errors.Wrap(err, "Error reading marker")
	}
	if tiny := int8(marker); tiny >= -16 {
		return int64(tiny), nil
	}
	low := int(marker & 0x0F)
	switch marker & 0xF0 {
	case TinyStringMarker:
		return d.decodeString(buffer, low)
	case TinySliceMarker:
		return d.decodeSlice(buffer, low)
	case TinyMapMarker:
		return d.decodeMap(buffer, low)
	case TinyStructMarker:
		return d.decodeStruct(buffer, low)
	}
	switch marker {
	case NilMarker:
		return nil, nil
	case TrueMarker, FalseMarker:
		return marker == TrueMarker, nil
	case FloatMarker:
		bits, err := number(buffer, 8)
		if err != nil {
			return nil, err
		}
		return math.Float64frombits(bits), nil
	case Int8Marker, Int16Marker, Int32Marker, Int64Marker:
		width := 1 << (marker - Int8Marker)
		bits, err := number(buffer, width)
		if err != nil {
			return nil, err
		}
		shift := uint(64 - 8*width)
		return int64(bits<<shift) >> shift, nil
	}
	for _, k := range sized {
		if marker < k.first || marker > k.last {
			continue
		}
		size, err := number(buffer, 1<<(marker-k.first))
		if err != nil {
			return nil, errors.Wrap(err, "An error occurred reading size")
		}
		switch k.first {
		case String8Marker:
			return d.decodeString(buffer, int(size))
		case Slice8Marker:
			return d.decodeSlice(buffer, int(size))
		case Map8Marker:
			return d.decodeMap(buffer, int(size))
		default:
			return d.decodeStruct(buffer, int(size))
		}
	}
	return nil, errors.New("Unrecognized marker byte!: %x", marker)
}

// sized are the ranges of markers that are followed by a size
var sized = []struct{ first, last byte }{
	{String8Marker, String32Marker}, {Slice8Marker, Slice32Marker}, {Map8Marker, Map32Marker}, {Struct8Marker, Struct16Marker},
}

// number reads a big endian number
func number(buffer *bytes.Buffer, width int) (uint64, error) {
	if buffer.Len() < width {
		return 0, io.ErrUnexpectedEOF
	}
	var out uint64
	for _, b := range buffer.Next(width) {
		out = out<<8 | uint64(b)
	}
	return out, nil
}

// field decodes a value of a certain type
func field[T any](d Decoder, buffer *bytes.Buffer) (T, error) {
	var none T
	val, err := d.decode(buffer)
	if err != nil {
		return none, err
	}
	out, ok := val.(T)
	if !ok {
		return none, errors.New("Expected: %T, but got %T %+v", none, val, val)
	}
	return out, nil
}
'''),
 ("encoding/decoder.go", "func (d Decoder) decodeNode(", '''func (d Decoder) decodeNode(buffer *bytes.Buffer) (node graph.Node, err error) {
	if node.NodeIdentity, err = field[int64](d, buffer); err != nil {
		return
	}
	labels, err := field[[]interface{}](d, buffer)
	if err != nil {
		return
	}
	if node.Labels, err = sliceInterfaceToString(labels); err != nil {
		return
	}
	node.Properties, err = field[map[string]interface{}](d, buffer)
	return
}
'''),
 ("encoding/decoder.go", "func (d Decoder) decodeRelationship(", '''func (d Decoder) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
	rel := graph.Relationship{}
	for _, to := range []*int64{&rel.RelIdentity, &rel.StartNodeIdentity, &rel.EndNodeIdentity} {
		var err error
		if *to, err = field[int64](d, buffer); err != nil {
			return rel, err
		}
	}
	var err error
	if rel.Type, err = field[string](d, buffer); err == nil {
		rel.Properties, err = field[map[string]interface{}](d, buffer)
	}
	return rel, err
}
'''),
 ("encoding/decoder.go", "func (d Decoder) read(", '''func (d Decoder) read() (*bytes.Buffer, error) {
	var (
		output bytes.Buffer
		header [2]byte
	)
	for {
		if n, err := io.ReadFull(d.r, header[:]); n != len(header) {
			return nil, errors.Wrap(err, "Couldn't read expected bytes for message length. Read: %d Expected: 2.", n)
		}
		size := int64(header[0])<<8 | int64(header[1])
		if size == 0 {
			break
		}
		if n, err := io.CopyN(&output, d.r, size); err != nil {
			return nil, errors.Wrap(err, "An error occurred reading message data. Read: %d Expected: %d", n, size)
		}
	}
	return &output, nil
}
'''),
 ("encoding/decoder.go", "func (d Decoder) readData(", ""),
 ("encoding/decoder.go", '\t"io"\n', '\t"io"\n\t"math"\n'),
 ("encoding/decoder.go", '\t"encoding/binary"\n', ''),
)
# --- decoder: struct table of closures, util with generics
r("dec-table",
 ("encoding/decoder.go", "func (d Decoder) decodeStruct(", '''func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, error) {
	signature, err := buffer.ReadByte()
	if err != nil {
		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
	}
	type reader func() (interface{}, error)
	readers := map[byte]reader{
		graph.NodeSignature:                func() (interface{}, error) { return d.decodeNode(buffer) },
		graph.RelationshipSignature:        func() (interface{}, error) { return d.decodeRelationship(buffer) },
		graph.PathSignature:                func() (interface{}, error) { return d.decodePath(buffer) },
		graph.UnboundRelationshipSignature: func() (interface{}, error) { return d.decodeUnboundRelationship(buffer) },
		messages.RecordMessageSignature:    func() (interface{}, error) { return d.decodeRecordMessage(buffer) },
		messages.FailureMessageSignature:   func() (interface{}, error) { return d.decodeFailureMessage(buffer) },
		messages.IgnoredMessageSignature:   func() (interface{}, error) { return d.decodeIgnoredMessage(buffer, size) },
		messages.SuccessMessageSignature:   func() (interface{}, error) { return d.decodeSuccessMessage(buffer) },
	}
	simple := map[byte]interface{}{
		messages.AckFailureMessageSignature: messages.NewAckFailureMessage(),
		messages.DiscardAllMessageSignature: messages.NewDiscardAllMessage(),
		messages.PullAllMessageSignature:    messages.NewPullAllMessage(),
		messages.ResetMessageSignature:      messages.NewResetMessage(),
	}
	if want, fixed := structSizes[signature]; fixed && want != size {
		return nil, errors.New("Unexpected number of fields for struct with signature %x. Expected: %d Got: %d", signature, want, size)
	}
	if read := readers[signature]; read != nil {
		return read()
	}
	if m, ok := simple[signature]; ok {
		return m, nil
	}
	return nil, errors.New("Unrecognized type decoding struct with signature %x", signature)
}
'''),
 ("encoding/util.go", "func sliceInterfaceToString(", '''func convert[T any](from []interface{}) ([]T, error) {
	to := make([]T, 0, len(from))
	for _, item := range from {
		v, ok := item.(T)
		if !ok {
			return nil, errors.New("Expected %T value. Got %T %+v", v, item, item)
		}
		to = append(to, v)
	}
	return to, nil
}

func sliceInterfaceToString(from []interface{}) ([]string, error) { return convert[string](from) }
'''),
 ("encoding/util.go", "func sliceInterfaceToNode(", "func sliceInterfaceToNode(from []interface{}) ([]graph.Node, error) { return convert[graph.Node](from) }\n"),
 ("encoding/util.go", "func sliceInterfaceToInt(", '''func sliceInterfaceToInt(from []interface{}) ([]int, error) {
	longs, err := convert[int64](from)
	if err != nil {
		return nil, err
	}
	to := make([]int, len(longs))
	for i := range longs {
		to[i] = int(longs[i])
	}
	return to, nil
}
'''),
)
# --- connection: guards in one place, parsing with a Values variable, tls config in pieces
r("conn-guards",
 ("conn.go", "func (c *boltConn) prepare(", '''func (c *boltConn) prepare(query string) (*boltStmt, error) {
	if err := c.idle(); err != nil {
		return nil, err
	}
	s := newStmt(query, c)
	c.statement = s
	return s, nil
}

// idle tells whether the connection is free for another statement
func (c *boltConn) idle() error {
	switch {
	case c.statement != nil:
		return errors.New("An open statement already exists")
	case c.closed:
		return errors.New("Connection already closed")
	}
	return nil
}
'''),
 ("conn.go", "func (c *boltConn) PreparePipeline(", '''func (c *boltConn) PreparePipeline(queries ...string) (PipelineStmt, error) {
	if err := c.idle(); err != nil {
		return nil, err
	}
	c.statement = newPipelineStmt(append([]string{}, queries...), c)
	return c.statement, nil
}
'''),
 ("conn.go", "func (c *boltConn) ExecNeo(", '''func (c *boltConn) ExecNeo(query string, params map[string]interface{}) (res Result, err error) {
	if err = c.idle(); err != nil {
		return
	}
	stmt := newStmt(query, c)
	defer func() { stmt.Close() }()
	if res, err = stmt.ExecNeo(params); err != nil {
		res = nil
	}
	return
}
'''),
 ("conn.go", "func (c *boltConn) Exec(", '''func (c *boltConn) Exec(query string, args []driver.Value) (driver.Result, error) {
	if err := c.idle(); err != nil {
		return nil, err
	}
	params, err := driverArgsToMap(args)
	if err != nil {
		return nil, err
	}
	return c.ExecNeo(query, params)
}
'''),
 ("conn.go", "func (c *boltConn) ExecPipeline(", '''func (c *boltConn) ExecPipeline(queries []string, params ...map[string]interface{}) ([]Result, error) {
	if err := c.idle(); err != nil {
		return nil, err
	}
	stmt := newPipelineStmt(queries, c)
	results, err := stmt.ExecPipeline(params...)
	if e := stmt.Close(); err == nil && e != nil {
		return nil, e
	}
	return results, err
}
'''),
 ("conn.go", "func (c *boltConn) QueryNeoAll(", '''func (c *boltConn) QueryNeoAll(query string, params map[string]interface{}) ([][]interface{}, map[string]interface{}, map[string]interface{}, error) {
	rows, err := c.queryNeo(query, params)
	if err != nil {
		return nil, nil, nil, err
	}
	data, metadata, err := rows.All()
	rows.Close()
	return data, rows.Metadata(), metadata, err
}
'''),
 ("conn.go", "func (c *boltConn) parseURL(", '''func (c *boltConn) parseURL() (*url.URL, error) {
	u, err := url.Parse(c.connStr)
	if err != nil {
		return u, errors.Wrap(err, "An error occurred parsing bolt URL")
	}
	if !strings.EqualFold(u.Scheme, "bolt") {
		return u, errors.New("Unsupported connection string scheme: %s. Driver only supports 'bolt' scheme.", u.Scheme)
	}
	if info := u.User; info != nil {
		password, ok := info.Password()
		if !ok {
			return u, errors.New("Must specify password when passing user")
		}
		c.user, c.password = info.Username(), password
	}
	q := u.Query()
	flag := func(name string) bool {
		val := q.Get(name)
		return val == "1" || len(val) > 0 && (val[0] == 't' || val[0] == 'T')
	}
	if text := q.Get("timeout"); text != "" {
		seconds, err := strconv.ParseInt(text, 10, 0)
		if err != nil {
			return u, errors.New("Invalid format for timeout: %s.  Must be integer", text)
		}
		c.timeout = time.Duration(seconds) * time.Second
	}
	if c.useTLS = flag("tls"); c.useTLS {
		for name, to := range map[string]*string{"tls_cert_file": &c.certFile, "tls_key_file": &c.keyFile, "tls_ca_cert_file": &c.caCertFile} {
			*to = q.Get(name)
		}
		c.tlsNoVerify = flag("tls_no_verify")
	}
	log.Tracef("Bolt Host: %s Timeout: %v TLS: %t", u.Host, c.timeout, c.useTLS)
	return u, nil
}
'''),
 ("conn.go", "func (c *boltConn) createConn(", '''func (c *boltConn) createConn() (net.Conn, error) {
	u, err := c.parseURL()
	if err != nil {
		return nil, errors.Wrap(err, "An error occurred parsing the conn URL")
	}
	c.url = u
	dial := func(d *net.Dialer) (net.Conn, error) { return d.Dial("tcp", u.Host) }
	if c.useTLS {
		config, err := c.tlsConfig()
		if err != nil {
			return nil, errors.Wrap(err, "An error occurred setting up TLS configuration")
		}
		dial = func(d *net.Dialer) (net.Conn, error) {
			conn, err := tls.DialWithDialer(d, "tcp", u.Host, config)
			if err != nil {
				return nil, err
			}
			return conn, nil
		}
	}
	conn, err := dial(&net.Dialer{Timeout: c.timeout})
	if err != nil {
		return nil, errors.Wrap(err, "An error occurred dialing to neo4j")
	}
	return conn, nil
}
'''),
 ("conn.go", "caCert, err := ioutil.ReadFile(c.caCertFile)", "caCert, err := os.ReadFile(c.caCertFile)"),
 ("conn.go", '\t"io/ioutil"\n', '\t"os"\n'),
)
# --- connection: sends through one function, responses by type table, initialize with defer
r("conn-send",
 ("conn.go", "func (c *boltConn) initialize(", '''func (c *boltConn) initialize() (err error) {
	defer func() {
		if err == nil {
			return
		}
		if c.conn != nil {
			c.connErr = err
		}
		if e := c.Close(); e != nil {
			log.Errorf("An error occurred closing connection: %s", e)
		}
	}()
	if rec := c.recording(); rec != nil {
		if c.connStr != "" {
			if rec.Conn, err = c.createConn(); err != nil {
				return err
			}
		}
		c.conn = rec
	} else if c.conn, err = c.createConn(); err != nil {
		return err
	}
	if err = c.handShake(); err != nil {
		return err
	}
	resp, err := c.sendInit()
	if err != nil {
		return err
	}
	if _, ok := resp.(messages.SuccessMessage); !ok {
		return driver.ErrBadConn
	}
	return nil
}

func (c *boltConn) recording() *recorder {
	if c.driver == nil {
		return nil
	}
	return c.driver.recorder
}
'''),
 ("conn.go", "func (c *boltConn) sendRun(", '''func (c *boltConn) sendRun(query string, args map[string]interface{}) error {
	log.Infof("Sending RUN message: query %s (args: %#v)", query, args)
	return c.send(messages.NewRunMessage(query, args), "An error occurred running query")
}

func (c *boltConn) send(m interface{}, what string) error {
	enc := encoding.NewEncoder(c, c.chunkSize)
	if err := enc.Encode(m); err != nil {
		return errors.Wrap(err, "%s", what)
	}
	return nil
}
'''),
 ("conn.go", "func (c *boltConn) sendPullAll(", '''func (c *boltConn) sendPullAll() error {
	return c.send(messages.NewPullAllMessage(), "An error occurred encoding pull all query")
}
'''),
 ("conn.go", "func (c *boltConn) sendDiscardAll(", '''func (c *boltConn) sendDiscardAll() error {
	return c.send(messages.NewDiscardAllMessage(), "An error occurred encoding discard all query")
}
'''),
 ("conn.go", "func (c *boltConn) consumeAll(", '''func (c *boltConn) consumeAll() (responses []interface{}, last interface{}, err error) {
	responses = make([]interface{}, 0, 4)
	for last, err = c.consume(); err == nil; last, err = c.consume() {
		if _, done := last.(messages.SuccessMessage); done {
			return
		}
		responses = append(responses, last)
	}
	return nil, last, err
}
'''),
 ("conn.go", "func (c *boltConn) consumeAllMultiple(", '''func (c *boltConn) consumeAllMultiple(mult int) ([][]interface{}, []interface{}, error) {
	var responses [][]interface{}
	var successes []interface{}
	for range mult {
		resp, success, err := c.consumeAll()
		if err != nil {
			return responses, successes, err
		}
		responses, successes = append(responses, resp), append(successes, success)
	}
	return responses, successes, nil
}
'''),
 ("conn.go", "func (c *boltConn) ackFailure(", '''func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
	if err := c.send(messages.NewAckFailureMessage(), "An error occurred encoding ack failure message"); err != nil {
		return err
	}
	respInt, err := c.skipIgnored()
	if err != nil {
		return errors.Wrap(err, "An error occurred decoding ack failure message response")
	}
	if _, ok := respInt.(messages.SuccessMessage); ok {
		return nil
	}
	if _, refused := respInt.(messages.FailureMessage); refused {
		return c.reset()
	}
	return c.giveUp(errors.New("Got unrecognized response from acking failure: %#v. CLOSING SESSION!", respInt))
}

// skipIgnored reads the next response that isn't IGNORED
func (c *boltConn) skipIgnored() (interface{}, error) {
again:
	respInt, err := c.decode()
	if _, ok := respInt.(messages.IgnoredMessage); ok && err == nil {
		goto again
	}
	return respInt, err
}

func (c *boltConn) giveUp(err error) error {
	c.connErr = err
	c.Close()
	return driver.ErrBadConn
}
'''),
 ("conn.go", "func (c *boltConn) reset(", '''func (c *boltConn) reset() error {
	if err := c.send(messages.NewResetMessage(), "An error occurred encoding reset message"); err != nil {
		return err
	}
	respInt, err := c.skipIgnored()
	if err != nil {
		return errors.Wrap(err, "An error occurred decoding reset message response")
	}
	switch resp := respInt.(type) {
	case messages.SuccessMessage:
		return nil
	case messages.FailureMessage:
		err := errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
		c.giveUp(err)
		return err
	}
	return c.giveUp(errors.New("Got unrecognized response from resetting session: %#v. CLOSING SESSION!", respInt))
}
'''),
 ("conn.go", "func (c *boltConn) Read(", '''func (c *boltConn) Read(b []byte) (n int, err error) {
	n, err = c.transfer(b, "read", net.Conn.SetReadDeadline, net.Conn.Read)
	return
}

func (c *boltConn) transfer(b []byte, what string, deadline func(net.Conn, time.Time) error, do func(net.Conn, []byte) (int, error)) (int, error) {
	if c.connErr != nil {
		return 0, driver.ErrBadConn
	}
	if err := deadline(c.conn, time.Now().Add(c.timeout)); err != nil {
		c.connErr = errors.Wrap(err, "An error occurred setting %s deadline", what)
		return 0, driver.ErrBadConn
	}
	n, err := do(c.conn, b)
	if log.GetLevel() >= log.TraceLevel {
		log.Tracef("%s %d bytes:\\n\\n%s\\n", what, n, sprintByteHex(b[:n]))
	}
	if err == nil {
		return n, nil
	}
	c.connErr = errors.Wrap(err, "An error occurred on stream: %s", what)
	if err == io.EOF && what == "read" {
		return n, err
	}
	return n, driver.ErrBadConn
}
'''),
 ("conn.go", "func (c *boltConn) Write(", '''func (c *boltConn) Write(b []byte) (n int, err error) {
	return c.transfer(b, "write", net.Conn.SetWriteDeadline, net.Conn.Write)
}
'''),
)
# --- rows and statements: states, helpers, embedded struct
r("rows-states",
 ("rows.go", "func (r *boltRows) NextNeo(", '''func (r *boltRows) NextNeo() (row []interface{}, meta map[string]interface{}, err error) {
	resp, err := r.advance()
	if err != nil {
		return nil, nil, err
	}
	if done, ok := resp.(messages.SuccessMessage); ok {
		r.finishedConsume = true
		return nil, done.Metadata, io.EOF
	}
	if rec, ok := resp.(messages.RecordMessage); ok {
		return rec.Fields, nil, nil
	}
	return nil, nil, errors.New("Unrecognized response type getting next query row: %#v", resp)
}

// advance reads the next response to these rows
func (r *boltRows) advance() (interface{}, error) {
	if r.closed {
		return nil, errors.New("Rows are already closed")
	} else if r.finishedConsume {
		return nil, r.ended()
	}
	var resp interface{}
	var err error
	if !r.consumed {
		r.consumed = true
		err = r.statement.conn.sendPullAll()
	}
	if err == nil {
		resp, err = r.statement.conn.consume()
	}
	if err != nil {
		r.finishedConsume, r.consumeErr = true, err
		return nil, err
	}
	return resp, nil
}
'''),
 ("rows.go", "func (r *boltRows) All(", '''func (r *boltRows) All() ([][]interface{}, map[string]interface{}, error) {
	all := [][]interface{}{}
	for row, meta, err := r.NextNeo(); ; row, meta, err = r.NextNeo() {
		switch {
		case err == io.EOF:
			return all, meta, nil
		case err != nil:
			return all, nil, err
		}
		all = append(all, row)
	}
}
'''),
 ("rows.go", "func (r *boltRows) Columns(", '''func (r *boltRows) Columns() []string {
	names := []string{}
	fields, _ := r.metadata["fields"].([]interface{})
	for _, f := range fields {
		name, ok := f.(string)
		if !ok {
			return []string{}
		}
		names = append(names, name)
	}
	return names
}
'''),
 ("rows.go", "func (r *boltRows) finish(", '''func (r *boltRows) finish() error {
	conn := r.statement.conn
	if !r.consumed {
		resp, err := conn.sendDiscardAllConsume()
		if err != nil {
			return errors.Wrap(err, "An error occurred discarding messages on row close")
		}
		if _, ok := resp.(messages.SuccessMessage); !ok {
			return errors.New("Unrecognized response type discarding all rows: Value: %#v", resp)
		}
		return nil
	}
	if r.finishedConsume {
		return nil
	}
	left := 1
	if later := len(r.statement.queries) - r.pipelineIndex - 1; later > 0 {
		left += 2 * later
	}
	for ; left > 0; left-- {
		if _, _, err := conn.consumeAll(); err != nil {
			return errors.Wrap(err, "An error occurred clearing out unconsumed stream")
		}
	}
	return nil
}
'''),
 ("stmt.go", "func (s *boltStmt) ExecPipeline(", '''func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) (results []Result, err error) {
	if err = s.runAll(params); err != nil {
		return nil, err
	}
	for range s.queries {
		var meta map[string]interface{}
		for k := 0; k < 2; k++ {
			_, resp, err := s.conn.consumeAll()
			if err != nil {
				return nil, errors.Wrap(err, "An error occurred getting result of exec command: %#v", resp)
			}
			meta = resp.(messages.SuccessMessage).Metadata
		}
		results = append(results, newResult(meta))
	}
	return results, nil
}

// runAll sends all queries of the pipeline
func (s *boltStmt) runAll(params []map[string]interface{}) error {
	if s.closed {
		return errors.New("Neo4j Bolt statement already closed")
	}
	if s.rows != nil {
		return errors.New("Another query is already open")
	}
	if len(params) != len(s.queries) {
		return errors.New("Must pass same number of params as there are queries")
	}
	for i := range params {
		if err := s.conn.sendRunPullAll(s.queries[i], params[i]); err != nil {
			s.conn.consumePipeline(i)
			return errors.Wrap(err, "Error running query:\\n\\n%s\\n\\nWith Params:\\n%#v", s.queries[i], params[i])
		}
	}
	return nil
}
'''),
 ("stmt.go", "func (s *boltStmt) Close(", '''func (s *boltStmt) Close() (err error) {
	if s.closed {
		return nil
	}
	if rows := s.rows; rows != nil {
		err = rows.Close()
	}
	if !s.closed {
		s.closed = true
		s.conn.statement, s.conn = nil, nil
	}
	return err
}
'''),
 ("tx.go", "func (t *boltTx) Commit(", '''func (t *boltTx) Commit() error {
	if t.closed {
		return errors.New("Transaction already closed")
	}
	if open := t.conn.statement; open != nil {
		if err := open.Close(); err != nil {
			if e := t.Rollback(); e != nil {
				log.Errorf("An error occurred rolling back transaction: %s", e)
			}
			return errors.Wrap(err, "An error occurred closing open rows in transaction Commit")
		}
	}
	return t.run("COMMIT")
}

// run ends the transaction
func (t *boltTx) run(how string) error {
	t.finish()
	a, b, err := t.conn.sendRunPullAllConsumeSingle(how, nil)
	if err != nil {
		return errors.Wrap(err, "An error occurred ending transaction: %s", how)
	}
	for _, resp := range []interface{}{a, b} {
		if _, ok := resp.(messages.SuccessMessage); !ok {
			return errors.New("Unrecognized response type ending transaction: %#v", resp)
		}
	}
	return nil
}
'''),
 ("tx.go", "func (t *boltTx) Rollback(", '''func (t *boltTx) Rollback() error {
	if t.closed {
		return errors.New("Transaction already closed")
	}
	if open := t.conn.statement; open != nil {
		_ = open.Close()
	}
	return t.run("ROLLBACK")
}
'''),
 ("result.go", "func (r boltResult) RowsAffected(", '''func (r boltResult) RowsAffected() (sum int64, err error) {
	raw, found := r.metadata["stats"]
	if !found {
		return
	}
	stats, ok := raw.(map[string]interface{})
	if !ok {
		return -1, errors.New("Unrecognized type for stats metadata: %#v", r.metadata)
	}
	for _, what := range [...]string{"nodes", "relationships"} {
		for _, how := range [...]string{"created", "deleted"} {
			if n, ok := stats[what+"-"+how].(int64); ok {
				sum += n
			} else if stat, ok := stats[what+"-"+how]; ok {
				return -1, errors.New("Unrecognized type for stat: %#v", stat)
			}
		}
	}
	return
}
'''),
 ("util.go", "func sprintByteHex(", '''func sprintByteHex(data []byte) string {
	var out strings.Builder
	out.WriteByte('\\t')
	for i, b := range data {
		fmt.Fprintf(&out, "%x", b)
		switch {
		case i%16 == 15:
			out.WriteString("\\n\\n\\t")
		case i%4 == 3:
			out.WriteString("  ")
		default:
			out.WriteRune(' ')
		}
	}
	return out.String() + "\\n"
}
'''),
 ("util.go", '\t"fmt"\n', '\t"fmt"\n\t"strings"\n'),
)
# --- pool: RWMutex, map of references, sync.Once, atomic flag
r("pool-once",
 ("driver.go", "	connRefs []*boltConn\n	refLock  sync.Mutex\n	closed   bool\n", "	connRefs map[*boltConn]struct{}\n	refLock  sync.RWMutex\n	once     sync.Once\n	closed   atomic.Bool\n"),
 ("driver.go", "		closing:  make(chan struct{}),\n", "		closing:  make(chan struct{}),\n		connRefs: map[*boltConn]struct{}{},\n"),
 ("driver.go", '\t"sync"\n', '\t"sync"\n\t"sync/atomic"\n'),
 ("driver.go", "func (d *boltDriverPool) swapRef(", '''func (d *boltDriverPool) swapRef(from, to *boltConn) bool {
	d.refLock.Lock()
	defer d.refLock.Unlock()
	delete(d.connRefs, from)
	if d.closed.Load() {
		return false
	}
	if to != nil {
		d.connRefs[to] = struct{}{}
	}
	return true
}
'''),
 ("driver.go", "func (d *boltDriverPool) Close(", '''func (d *boltDriverPool) Close() (err error) {
	d.once.Do(func() {
		d.refLock.Lock()
		defer d.refLock.Unlock()
		d.closed.Store(true)
		close(d.closing)
		for conn := range d.connRefs {
			if e := conn.conn.Close(); err == nil {
				err = e
			}
			delete(d.connRefs, conn)
		}
	})
	return err
}
'''),
 ("driver.go", "func (d *boltDriverPool) OpenPool(", '''func (d *boltDriverPool) OpenPool() (Conn, error) {
	conn, err := d.take()
	if err != nil {
		return nil, err
	}
	if !connectionNilOrClosed(conn) {
		return conn, nil
	}
	d.swapRef(conn, nil)
	if conn.conn != nil {
		conn.conn.Close()
	}
	if err := conn.initialize(); err != nil {
		return nil, err
	}
	if d.swapRef(nil, conn) {
		return conn, nil
	}
	conn.Close()
	return nil, errors.New("Driver pool has been closed")
}

// take waits for a connection
func (d *boltDriverPool) take() (*boltConn, error) {
	d.refLock.RLock()
	closed := d.closed.Load()
	d.refLock.RUnlock()
	if !closed {
		select {
		case conn := <-d.pool:
			return conn, nil
		case <-d.closing:
		}
	}
	return nil, errors.New("Driver pool has been closed")
}
'''),
)
# --- pool: a stack of idle connections with a condition variable
r("pool-cond",
 ("driver.go", "	pool     chan *boltConn\n", "	idle     []*boltConn\n	cond     *sync.Cond\n"),
 ("driver.go", "	closing  chan struct{} // closed when the pool is, to stop waiting for a connection\n", ""),
 ("driver.go", "func createDriverPool(", '''func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
	d := &boltDriverPool{connStr: connStr, maxConns: max}
	d.cond = sync.NewCond(&d.refLock)
	for len(d.idle) < max {
		conn, err := newPooledBoltConn(connStr, d)
		if err != nil {
			return nil, err
		}
		d.idle = append(d.idle, conn)
	}
	return d, nil
}
'''),
 ("driver.go", "func (d *boltDriverPool) OpenPool(", '''func (d *boltDriverPool) OpenPool() (Conn, error) {
	d.refLock.Lock()
	for !d.closed && len(d.idle) == 0 {
		d.cond.Wait()
	}
	if d.closed {
		d.refLock.Unlock()
		return nil, errors.New("Driver pool has been closed")
	}
	conn := d.idle[0]
	d.idle = d.idle[1:]
	d.refLock.Unlock()
	if connectionNilOrClosed(conn) {
		d.swapRef(conn, nil)
		if conn.conn != nil {
			conn.conn.Close()
		}
		if err := conn.initialize(); err != nil {
			return nil, err
		}
		if !d.swapRef(nil, conn) {
			conn.Close()
			return nil, errors.New("Driver pool has been closed")
		}
	}
	return conn, nil
}
'''),
 ("driver.go", "	close(d.closing)\n", "	d.cond.Broadcast()\n"),
 ("driver.go", "	d.pool <- newConn\n\n	return nil", "	d.refLock.Lock()\n	d.idle = append(d.idle, newConn)\n	d.refLock.Unlock()\n	d.cond.Signal()\n\n	return nil"),
)
# --- log and errors
r("log-errors",
 ("log/log.go", "func SetLevel(", '''func SetLevel(levelStr string) {
	levels := map[string]Level{"trace": TraceLevel, "info": InfoLevel, "error": ErrorLevel}
	level = levels[strings.ToLower(levelStr)]
}

func enabled(l Level) bool { return GetLevel() >= l }
'''),
 ("log/log.go", "func Trace(", '''func Trace(args ...interface{}) {
	if !enabled(TraceLevel) {
		return
	}
	TraceLog.Println(args...)
}
'''),
 ("log/log.go", "func Errorf(", '''func Errorf(msg string, args ...interface{}) {
	if enabled(ErrorLevel) {
		ErrorLog.Output(2, fmt.Sprintf(msg, args...))
	}
}
'''),
 ("log/log.go", '\tl "log"\n', '\t"fmt"\n\tl "log"\n'),
 ("errors/errors.go", "func (e *Error) InnerMost(", '''func (e *Error) InnerMost() error {
	var cur error = e
	for {
		inner, ok := cur.(*Error)
		if !ok || inner.wrapped == nil {
			return cur
		}
		cur = inner.wrapped
	}
}
'''),
 ("errors/errors.go", "func Wrap(", '''func Wrap(err error, msg string, args ...interface{}) *Error {
	out := &Error{msg: fmt.Sprintf(msg, args...), wrapped: err}
	if _, nested := err.(*Error); !nested {
		out.stack = debug.Stack()
	}
	return out
}
'''),
 ("errors/errors.go", "func (e *Error) error(", '''func (e *Error) error(level int) string {
	var b strings.Builder
	for i := 0; i < level; i++ {
		b.WriteByte('\\t')
	}
	b.WriteString(e.msg)
	switch w := e.wrapped.(type) {
	case nil:
	case *Error:
		b.WriteString("\\n" + w.error(level+1))
	default:
		fmt.Fprintf(&b, "\\nInternal Error(%T):%s", w, w)
	}
	if len(e.stack) > 0 {
		b.WriteString("\\n\\n Stack Trace:\\n\\n")
		b.Write(e.stack)
	}
	return b.String()
}
'''),
)

# --- more of the standard library
r("std-enc",
 ("encoding/encoder.go", 'import (\n', 'import (\n\t"bufio"\n\t"slices"\n\t"sort"\n\t"sync"\n\t"strings"\n'),
 ("encoding/encoder.go", "func (e Encoder) encodeMap(", '''func (e Encoder) encodeMap(val map[string]interface{}) error {
	if err := e.header(len(val), TinyMapMarker, Map8Marker); err != nil {
		return err
	}
	keys := make([]string, 0, len(val))
	for k := range val {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if err := e.encodeString(k); err != nil {
			return err
		}
		if err := e.encode(val[k]); err != nil {
			return err
		}
	}
	return nil
}

// header writes the marker and the size of a container
func (e Encoder) header(n int, tiny, first byte) error {
	var b []byte
	switch {
	case n < 16:
		b = append(b, tiny+byte(n))
	case n <= math.MaxUint8:
		b = append(b, first, byte(n))
	case n <= math.MaxUint16:
		b = binary.BigEndian.AppendUint16([]byte{first + 1}, uint16(n))
	case int64(n) <= math.MaxUint32:
		b = binary.BigEndian.AppendUint32([]byte{first + 2}, uint32(n))
	default:
		return errors.New("Value too long to write: %d", n)
	}
	_, err := e.Write(b)
	return err
}
'''),
 ("encoding/encoder.go", "func (e Encoder) encodeSlice(", '''func (e Encoder) encodeSlice(val []interface{}) error {
	if err := e.header(len(val), TinySliceMarker, Slice8Marker); err != nil {
		return err
	}
	var err error
	slices.ContainsFunc(val, func(x interface{}) bool {
		err = e.encode(x)
		return err != nil
	})
	return err
}
'''),
 ("encoding/encoder.go", "func (e Encoder) encodeString(", '''func (e Encoder) encodeString(val string) error {
	if err := e.header(len(val), TinyStringMarker, String8Marker); err != nil {
		return err
	}
	_, err := strings.NewReader(val).WriteTo(e)
	return err
}
'''),
 ("encoding/encoder.go", "func Marshal(", '''func Marshal(v interface{}) ([]byte, error) {
	x := scratch.Get().(*bytes.Buffer)
	defer scratch.Put(x)
	x.Reset()
	w := bufio.NewWriterSize(x, 64)
	if err := NewEncoder(w, math.MaxUint16).Encode(v); err != nil {
		return nil, err
	}
	w.Flush()
	return slices.Clone(x.Bytes()), nil
}

var scratch = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
'''),
)
r("std-dec",
 ("encoding/decoder.go", "func (d Decoder) read(", '''func (d Decoder) read() (*bytes.Buffer, error) {
	output := &bytes.Buffer{}
	for {
		var header [2]byte
		if n, err := io.ReadAtLeast(d.r, header[:], 2); err != nil {
			return nil, errors.Wrap(err, "Couldn't read expected bytes for message length. Read: %d Expected: 2.", n)
		}
		size := binary.BigEndian.Uint16(header[:])
		if size == 0 {
			return output, nil
		}
		if n, err := io.CopyN(output, d.r, int64(size)); err != nil {
			if err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return output, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", n, size)
		}
	}
}
'''),
 ("encoding/decoder.go", "func (d Decoder) readData(", "\n"),
 ("encoding/decoder.go", "func (d Decoder) decodeMap(", '''func (d Decoder) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
	// Every key and every value takes at least one byte
	if size < 0 || size > buffer.Len()/2 {
		return nil, errors.New("Map of %d entries exceeds the %d bytes left in the message", size, buffer.Len())
	}
	mapp := make(map[string]interface{})
	return mapp, repeat(size, func() error {
		key, err := item[string](d, buffer)
		if err != nil {
			return err
		}
		mapp[key], err = d.decode(buffer)
		return err
	})
}

// repeat does something n times, until it fails
func repeat(n int, f func() error) error {
	for range n {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

// item decodes a value of a certain type
func item[T any](d Decoder, buffer *bytes.Buffer) (T, error) {
	var none T
	x, err := d.decode(buffer)
	if err != nil {
		return none, err
	}
	t, ok := x.(T)
	if !ok {
		return none, errors.New("Expected: %T, but got %T %+v", none, x, x)
	}
	return t, nil
}
'''),
 ("encoding/decoder.go", "func (d Decoder) decodeUnboundRelationship(", '''func (d Decoder) decodeUnboundRelationship(buffer *bytes.Buffer) (rel graph.UnboundRelationship, err error) {
	if rel.RelIdentity, err = item[int64](d, buffer); err != nil {
		return
	}
	if rel.Type, err = item[string](d, buffer); err != nil {
		return
	}
	rel.Properties, err = item[map[string]interface{}](d, buffer)
	return
}
'''),
 ("encoding/util.go", "func sliceInterfaceToString(", '''func sliceInterfaceToString(from []interface{}) ([]string, error) {
	return convert(from, func(s string) string { return s })
}

func convert[T, U any](from []interface{}, f func(T) U) ([]U, error) {
	to := make([]U, 0, len(from))
	for _, item := range from {
		t, ok := item.(T)
		if !ok {
			return nil, errors.New("Unexpected value. Got %T %+v", item, item)
		}
		to = append(to, f(t))
	}
	return to, nil
}
'''),
 ("encoding/util.go", "func sliceInterfaceToInt(", '''func sliceInterfaceToInt(from []interface{}) ([]int, error) {
	return convert(from, func(i int64) int { return int(i) })
}
'''),
)
r("std-conn",
 ("util.go", "func sprintByteHex(", '''func sprintByteHex(b []byte) string {
	var out strings.Builder
	out.Grow(4 * len(b))
	out.WriteByte('\\t')
	for i := range b {
		out.WriteString(strconv.FormatUint(uint64(b[i]), 16))
		switch {
		case i%16 == 15:
			out.WriteString("\\n\\n\\t")
		case i%4 == 3:
			out.WriteString("  ")
		default:
			out.WriteByte(' ')
		}
	}
	fmt.Fprintln(&out)
	return out.String()
}
'''),
 ("util.go", '	"fmt"\n', '	"fmt"\n	"maps"\n	"strconv"\n	"strings"\n'),
 ("util.go", "		for k, v := range params {\n			output[k] = v\n		}\n", "		maps.Copy(output, params)\n"),
 ("conn.go", "	useTLS := url.Query().Get(\"tls\")\n	c.useTLS = strings.HasPrefix(strings.ToLower(useTLS), \"t\") || useTLS == \"1\"\n", '''	options := url.Query()
	isTrue := func(name string) bool {
		x := options.Get(name)
		return x != "" && strings.ContainsAny(x[:1], "tT") || x == "1"
	}
	c.useTLS = isTrue("tls")
'''),
 ("conn.go", "		noVerify := url.Query().Get(\"tls_no_verify\")\n		c.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), \"t\") || noVerify == \"1\"\n", "		c.tlsNoVerify = isTrue(\"tls_no_verify\")\n"),
 ("conn.go", "		timeoutInt, err := strconv.Atoi(timeout)\n", "		timeoutInt, err := strconv.ParseInt(timeout, 10, strconv.IntSize)\n"),
 ("result.go", "	var rowsAffected int64\n	for _, name := range []string{\"nodes-created\", \"relationships-created\", \"nodes-deleted\", \"relationships-deleted\"} {\n", '''	var rowsAffected int64
	names := [...]string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"}
	for i := range names {
		name := names[len(names)-1-i]
'''),
)
r("std-pool",
 ("driver.go", "	closed   bool\n", "	closed   atomic.Bool\n	once     sync.Once\n"),
 ("driver.go", '	"sync"\n', '	"sync"\n	"sync/atomic"\n'),
 ("driver.go", "	d.refLock.Lock()\n	closed := d.closed\n	d.refLock.Unlock()\n	if !closed {\n", "	if !d.closed.Load() {\n"),
 ("driver.go", "func (d *boltDriverPool) Close(", '''func (d *boltDriverPool) Close() (err error) {
	d.once.Do(func() {
		var refs []*boltConn
		d.refLock.Lock()
		d.closed.Store(true)
		refs, d.connRefs = d.connRefs, nil
		for _, conn := range refs {
			if e := conn.conn.Close(); e != nil && err == nil {
				err = e
			}
		}
		d.refLock.Unlock()
		close(d.closing)
	})
	return err
}
'''),
 ("driver.go", "	if to != nil && !d.closed {\n", "	if to != nil && !d.closed.Load() {\n"),
 ("driver.go", "	return !d.closed\n", "	return !d.closed.Load()\n"),
 ("driver.go", "	for i, conn := range d.connRefs {\n		if conn == from {\n			d.connRefs = append(d.connRefs[:i], d.connRefs[i+1:]...)\n			break\n		}\n	}\n", "	if i := slices.Index(d.connRefs, from); i >= 0 {\n		d.connRefs = slices.Delete(d.connRefs, i, i+1)\n	}\n"),
 ("driver.go", '	"database/sql"\n', '	"database/sql"\n	"slices"\n'),
)
r("std-rows",
 ("rows.go", "func (r *boltRows) All(", '''func (r *boltRows) All() ([][]interface{}, map[string]interface{}, error) {
	output := make([][]interface{}, 0)
	var metadata map[string]interface{}
	var err error
	for row := range r.each(&metadata, &err) {
		output = append(output, row)
	}
	if stderrors.Is(err, io.EOF) {
		err = nil
	}
	return output, metadata, err
}

// each goes through the rows until there is none, and tells why
func (r *boltRows) each(metadata *map[string]interface{}, err *error) iter.Seq[[]interface{}] {
	return func(yield func([]interface{}) bool) {
		for {
			var row []interface{}
			if row, *metadata, *err = r.NextNeo(); row == nil || *err != nil || !yield(row) {
				return
			}
		}
	}
}
'''),
 ("rows.go", 'import (\n', 'import (\n\tstderrors "errors"\n\t"iter"\n'),
 ("conn.go", "func (c *boltConn) consumeAll(", '''func (c *boltConn) consumeAll() (responses []interface{}, last interface{}, err error) {
	log.Info("Consuming all responses until success/failure")
	defer func() {
		if err != nil {
			responses = nil
		}
	}()
	responses = make([]interface{}, 0, 4)
again:
	if last, err = c.consume(); err != nil {
		return
	}
	switch last := last.(type) {
	case messages.SuccessMessage:
		log.Infof("Got success message: %#v", last)
		return responses, last, nil
	}
	responses = append(responses, last)
	goto again
}
'''),
)
