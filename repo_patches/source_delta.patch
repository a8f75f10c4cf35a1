From febc588cf1135c3e6fada40a02e87bf6c31a60e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:20 +0000
Subject: [PATCH 01/25] fix: decode string, list, map and structure sizes as
 unsigned

Sizes of 128-255 (8-bit) and 32768-65535 (16-bit) were read as negative
numbers: strings and lists panicked, maps came back empty.
---
 encoding/decoder.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 76fe5d8..ddb89a9 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -159,19 +159,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -182,19 +182,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -205,19 +205,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -228,13 +228,13 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From 8038b4f4befd5f74de73436a88ea9b3fdc7423e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:21 +0000
Subject: [PATCH 02/25] fix: reject sizes that exceed the message instead of
 truncating or allocating

A string cut short was returned as if complete, and a list or map header
declaring up to 2^32 items allocated that many before reading any.
---
 encoding/decoder.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index ddb89a9..93051a3 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -157,25 +157,25 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= TinySliceMarker && marker <= TinySliceMarker+0x0F:
@@ -246,7 +246,18 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d Decoder) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if size < 0 || size > buffer.Len() {
+		return nil, errors.New("String of %d bytes exceeds the %d bytes left in the message", size, buffer.Len())
+	}
+	return string(buffer.Next(size)), nil
+}
+
 func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
+	// Every item takes at least one byte
+	if size < 0 || size > buffer.Len() {
+		return nil, errors.New("Slice of %d items exceeds the %d bytes left in the message", size, buffer.Len())
+	}
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
@@ -260,6 +271,10 @@ func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, err
 }
 
 func (d Decoder) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
+	// Every key and every value takes at least one byte
+	if size < 0 || size > buffer.Len()/2 {
+		return nil, errors.New("Map of %d entries exceeds the %d bytes left in the message", size, buffer.Len())
+	}
 	mapp := make(map[string]interface{}, size)
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
-- 
2.43.0


From bef9645913e8330fd3a40efa09df4ac95b314cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:23 +0000
Subject: [PATCH 03/25] fix: return an error when a structure field has the
 wrong type

Identities of nodes and relationships and path sequences were asserted to
be integers without checking, so a malformed message panicked.
---
 encoding/decoder.go | 30 +++++++++++++++++++++++-------
 encoding/util.go    |  6 +++++-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 93051a3..ee78222 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -336,11 +336,15 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
 
+	var ok bool
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -371,25 +375,34 @@ func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 func (d Decoder) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
 
+	var ok bool
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -456,13 +469,16 @@ func (d Decoder) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 func (d Decoder) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
 
+	var ok bool
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index 1b21932..f968c17 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func sliceInterfaceToString(from []interface{}) ([]string, error) {
 func sliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From db2fba1bdd036dbe7c1b2c2597bbca632f164841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:09 +0000
Subject: [PATCH 04/25] fix: reject structures with the wrong field count and
 messages with left over bytes

The declared number of fields was ignored, so a structure with another
count was read into the values that follow it, silently.
---
 encoding/decoder.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index ee78222..ad02733 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -23,6 +23,21 @@ type Decoder struct {
 	buf *bytes.Buffer
 }
 
+// structSizes holds the number of fields for the structures with a fixed layout
+var structSizes = map[byte]int{
+	graph.NodeSignature:                 3,
+	graph.RelationshipSignature:         5,
+	graph.PathSignature:                 3,
+	graph.UnboundRelationshipSignature:  3,
+	messages.RecordMessageSignature:     1,
+	messages.FailureMessageSignature:    1,
+	messages.SuccessMessageSignature:    1,
+	messages.AckFailureMessageSignature: 0,
+	messages.DiscardAllMessageSignature: 0,
+	messages.PullAllMessageSignature:    0,
+	messages.ResetMessageSignature:      0,
+}
+
 // NewDecoder Creates a new Decoder object
 func NewDecoder(r io.Reader) Decoder {
 	return Decoder{
@@ -95,7 +110,14 @@ func (d Decoder) Decode() (interface{}, error) {
 		return nil, err
 	}
 
-	return d.decode(data)
+	val, err := d.decode(data)
+	if err != nil {
+		return nil, err
+	} else if data.Len() > 0 {
+		return nil, errors.New("%d bytes left over after decoding message", data.Len())
+	}
+
+	return val, nil
 }
 
 func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
@@ -303,6 +325,10 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if expected, ok := structSizes[signature]; ok && size != expected {
+		return nil, errors.New("Unexpected number of fields for struct with signature %x. Expected: %d Got: %d", signature, expected, size)
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
@@ -317,7 +343,7 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 	case messages.FailureMessageSignature:
 		return d.decodeFailureMessage(buffer)
 	case messages.IgnoredMessageSignature:
-		return d.decodeIgnoredMessage(buffer)
+		return d.decodeIgnoredMessage(buffer, size)
 	case messages.SuccessMessageSignature:
 		return d.decodeSuccessMessage(buffer)
 	case messages.AckFailureMessageSignature:
@@ -526,7 +552,13 @@ func (d Decoder) decodeFailureMessage(buffer *bytes.Buffer) (messages.FailureMes
 	return messages.NewFailureMessage(metadata), nil
 }
 
-func (d Decoder) decodeIgnoredMessage(buffer *bytes.Buffer) (messages.IgnoredMessage, error) {
+func (d Decoder) decodeIgnoredMessage(buffer *bytes.Buffer, size int) (messages.IgnoredMessage, error) {
+	// Metadata may follow, but it isn't used
+	for i := 0; i < size; i++ {
+		if _, err := d.decode(buffer); err != nil {
+			return messages.IgnoredMessage{}, err
+		}
+	}
 	return messages.NewIgnoredMessage(), nil
 }
 
-- 
2.43.0


From 4dcd78f35edd745ad75506a89cffe48588b6de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:58 +0000
Subject: [PATCH 05/25] fix: read chunk data as the io.Reader contract requires

Data returned together with an error was dropped, and an empty read
without an error ended the message with a failure.
---
 encoding/decoder.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index ad02733..af165f4 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -83,21 +83,8 @@ func (d Decoder) read() (*bytes.Buffer, error) {
 
 func (d Decoder) readData(messageLen uint16) ([]byte, error) {
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	if numRead, err := io.ReadFull(d.r, output); err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
-- 
2.43.0


From 96dd336ef12b96c11afb9cb790ee5fb0c7287e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:19 +0000
Subject: [PATCH 06/25] fix: never write a chunk longer than its length field
 can hold

What was left for the last chunk could exceed 65535 bytes, and its length
was truncated to 16 bits: messages with large strings were sent corrupt.
A chunk size of 0 ended the message in the middle, and Write reported the
size of the chunk instead of the bytes it was given.
---
 encoding/encoder.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 133ece2..af3fdc6 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -113,17 +113,16 @@ func (e Encoder) Write(p []byte) (n int, err error) {
 	}
 
 	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
+	for e.chunkSize > 0 && length >= int(e.chunkSize) {
 		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
 			return 0, errors.Wrap(err, "An error occured writing chunksize")
 		}
 
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
+		if _, err := e.w.Write(e.buf.Next(int(e.chunkSize))); err != nil {
+			return 0, errors.Wrap(err, "An error occured writing a chunk")
 		}
 
-		return numWritten, err
+		return n, nil
 	}
 
 	return n, nil
@@ -131,13 +130,14 @@ func (e Encoder) Write(p []byte) (n int, err error) {
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e Encoder) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+	for e.buf.Len() > 0 {
+		// A chunk holds at most math.MaxUint16 bytes
+		chunk := e.buf.Next(math.MaxUint16)
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
-- 
2.43.0


From 77dfa7a1d41c341e624fc0503af905df44a23891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 07/25] fix: send nothing for a value that cannot be encoded

Chunks already written stayed on the stream without an end marker and the
rest stayed in the encoder, in front of the next message.
---
 encoding/encoder.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index af3fdc6..1b6966b 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -154,13 +154,26 @@ func (e Encoder) flush() error {
 // Encode encodes an object to the stream
 func (e Encoder) Encode(iVal interface{}) error {
 
-	err := e.encode(iVal)
+	// Frame the whole message before sending any of it, so that a value that
+	// can't be encoded leaves no part of a message on the stream
+	message := &bytes.Buffer{}
+	framer := Encoder{w: message, buf: e.buf, chunkSize: e.chunkSize}
+
+	err := framer.encode(iVal)
 	if err != nil {
+		e.buf.Reset()
 		return err
 	}
 
 	// Whatever is left in the buffer for the chunk at the end, write it out
-	return e.flush()
+	if err := framer.flush(); err != nil {
+		return err
+	}
+
+	if _, err := message.WriteTo(e.w); err != nil {
+		return errors.Wrap(err, "An error occurred writing message to stream")
+	}
+	return nil
 }
 
 // Encode encodes an object to the stream
-- 
2.43.0


From ba06539df8a53560074708f781f7d6f439de77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:11 +0000
Subject: [PATCH 08/25] fix: require the whole handshake reply and a version
 that was offered

---
 conn.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 72f8117..8ebcf8c 100644
--- a/conn.go
+++ b/conn.go
@@ -240,21 +240,20 @@ func (c *boltConn) handShake() error {
 	numWritten, err := c.Write(handShake)
 	if numWritten != 20 {
 		log.Errorf("Couldn't write expected bytes for magic preamble + supported versions. Written: %d. Expected: 4", numWritten)
-		if err != nil {
-			err = errors.Wrap(err, "An error occurred writing magic preamble + supported versions")
+		if err == nil {
+			err = io.ErrShortWrite
 		}
-		return err
+		return errors.Wrap(err, "An error occurred writing magic preamble + supported versions")
 	}
 
-	numRead, err := c.Read(c.serverVersion)
+	numRead, err := io.ReadFull(c, c.serverVersion)
 	if numRead != 4 {
 		log.Errorf("Could not read server version response. Read %d bytes. Expected 4 bytes. Output: %s", numRead, c.serverVersion)
-		if err != nil {
-			err = errors.Wrap(err, "An error occurred reading server version")
-		}
-		return err
+		return errors.Wrap(err, "An error occurred reading server version")
 	} else if bytes.Equal(c.serverVersion, noVersionSupported) {
 		return errors.New("Server responded with no supported version")
+	} else if !bytes.Equal(c.serverVersion, supportedVersions[:4]) {
+		return errors.New("Server responded with a version that was not offered: %x", c.serverVersion)
 	}
 
 	return nil
-- 
2.43.0


From 8e77751907ea4180205f20533948e77d5cb2dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:13 +0000
Subject: [PATCH 09/25] fix: stop using a connection after a transport or
 decoding error

---
 conn.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 8ebcf8c..2bc614f 100644
--- a/conn.go
+++ b/conn.go
@@ -317,6 +317,11 @@ func (c *boltConn) initialize() error {
 
 // Read reads the data from the underlying connection
 func (c *boltConn) Read(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		// What follows on the stream can't be trusted after an error
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting read deadline")
 		return 0, driver.ErrBadConn
@@ -328,8 +333,10 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 		log.Tracef("Read %d bytes from stream:\n\n%s\n", n, sprintByteHex(b))
 	}
 
-	if err != nil && err != io.EOF {
+	if err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred reading from stream")
+	}
+	if err != nil && err != io.EOF {
 		err = driver.ErrBadConn
 	}
 	return n, err
@@ -337,6 +344,10 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 
 // Write writes the data to the underlying connection
 func (c *boltConn) Write(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
 		return 0, driver.ErrBadConn
@@ -408,7 +419,7 @@ func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
 	}
 
 	for {
-		respInt, err := encoding.NewDecoder(c).Decode()
+		respInt, err := c.decode()
 		if err != nil {
 			return errors.Wrap(err, "An error occurred decoding ack failure message response")
 		}
@@ -442,7 +453,7 @@ func (c *boltConn) reset() error {
 	}
 
 	for {
-		respInt, err := encoding.NewDecoder(c).Decode()
+		respInt, err := c.decode()
 		if err != nil {
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
@@ -547,10 +558,20 @@ func (c *boltConn) SetTimeout(timeout time.Duration) {
 	c.timeout = timeout
 }
 
+// decode reads one message from the stream
+func (c *boltConn) decode() (interface{}, error) {
+	respInt, err := encoding.NewDecoder(c).Decode()
+	if err != nil && c.connErr == nil {
+		// Without this response, later responses can't be matched to their requests
+		c.connErr = errors.Wrap(err, "An error occurred decoding a response")
+	}
+	return respInt, err
+}
+
 func (c *boltConn) consume() (interface{}, error) {
 	log.Info("Consuming response from bolt stream")
 
-	respInt, err := encoding.NewDecoder(c).Decode()
+	respInt, err := c.decode()
 	if err != nil {
 		return respInt, err
 	}
-- 
2.43.0


From 22d0c950ba52fb0079a63971c8253837917d9544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:31 +0000
Subject: [PATCH 10/25] fix: keep track of the open transaction of a connection

---
 conn.go |  3 ++-
 tx.go   | 19 ++++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 2bc614f..e665ba7 100644
--- a/conn.go
+++ b/conn.go
@@ -545,7 +545,8 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	log.Infof("Got success message pulling transaction: %#v", success)
 
-	return newTx(c), nil
+	c.transaction = newTx(c)
+	return c.transaction, nil
 }
 
 // Sets the size of the chunks to write to the stream
diff --git a/tx.go b/tx.go
index e70bbef..dde0853 100644
--- a/tx.go
+++ b/tx.go
@@ -25,6 +25,13 @@ func newTx(conn *boltConn) *boltTx {
 	}
 }
 
+// finish marks the transaction as over. Whatever the server answers to
+// a COMMIT or ROLLBACK, there is no transaction left to use after it.
+func (t *boltTx) finish() {
+	t.conn.transaction = nil
+	t.closed = true
+}
+
 // Commit commits and closes the transaction
 func (t *boltTx) Commit() error {
 	if t.closed {
@@ -32,10 +39,14 @@ func (t *boltTx) Commit() error {
 	}
 	if t.conn.statement != nil {
 		if err := t.conn.statement.Close(); err != nil {
+			if e := t.Rollback(); e != nil {
+				log.Errorf("An error occurred rolling back transaction: %s", e)
+			}
 			return errors.Wrap(err, "An error occurred closing open rows in transaction Commit")
 		}
 	}
 
+	t.finish()
 	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("COMMIT", nil)
 	if err != nil {
 		return errors.Wrap(err, "An error occurred committing transaction")
@@ -55,8 +66,6 @@ func (t *boltTx) Commit() error {
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
 
-	t.conn.transaction = nil
-	t.closed = true
 	return err
 }
 
@@ -67,10 +76,12 @@ func (t *boltTx) Rollback() error {
 	}
 	if t.conn.statement != nil {
 		if err := t.conn.statement.Close(); err != nil {
-			return errors.Wrap(err, "An error occurred closing open rows in transaction Rollback")
+			// The rows are lost either way
+			log.Errorf("An error occurred closing open rows in transaction Rollback: %s", err)
 		}
 	}
 
+	t.finish()
 	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("ROLLBACK", nil)
 	if err != nil {
 		return errors.Wrap(err, "An error occurred rolling back transaction")
@@ -90,7 +101,5 @@ func (t *boltTx) Rollback() error {
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
 
-	t.conn.transaction = nil
-	t.closed = true
 	return err
 }
-- 
2.43.0


From 08f82cea5484024234ae4173ddd27184bccd8463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:14 +0000
Subject: [PATCH 11/25] fix: don't read past the end of a row stream, nor leave
 rows open when closing them fails

---
 rows.go | 48 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/rows.go b/rows.go
index 4eb6782..fa21cfd 100644
--- a/rows.go
+++ b/rows.go
@@ -58,6 +58,7 @@ type boltRows struct {
 	closed          bool
 	consumed        bool
 	finishedConsume bool
+	consumeErr      error // The error that ended the stream, if one did
 	pipelineIndex   int
 	closeStatement  bool
 }
@@ -123,6 +124,26 @@ func (r *boltRows) Close() error {
 		return nil
 	}
 
+	if current := r.statement.rows; current != nil && current != r {
+		// A later set of rows of the same pipeline is open. It takes this one with it
+		r.closed = true
+		return current.Close()
+	}
+
+	err := r.finish()
+	r.closed = true
+	r.statement.rows = nil
+
+	if r.closeStatement {
+		if e := r.statement.Close(); err == nil {
+			err = e
+		}
+	}
+	return err
+}
+
+// finish clears out whatever is left of the stream
+func (r *boltRows) finish() error {
 	if !r.consumed {
 		// Discard all messages if not consumed
 		respInt, err := r.statement.conn.sendDiscardAllConsume()
@@ -160,13 +181,15 @@ func (r *boltRows) Close() error {
 		}
 	}
 
-	r.closed = true
-	r.statement.rows = nil
+	return nil
+}
 
-	if r.closeStatement {
-		return r.statement.Close()
+// ended is what a read past the end of the stream returns
+func (r *boltRows) ended() error {
+	if r.consumeErr != nil {
+		return r.consumeErr
 	}
-	return nil
+	return io.EOF
 }
 
 // Next gets the next row result
@@ -202,17 +225,22 @@ func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
 	if r.closed {
 		return nil, nil, errors.New("Rows are already closed")
 	}
+	if r.finishedConsume {
+		return nil, nil, r.ended()
+	}
 
 	if !r.consumed {
 		r.consumed = true
 		if err := r.statement.conn.sendPullAll(); err != nil {
-			r.finishedConsume = true
+			r.finishedConsume, r.consumeErr = true, err
 			return nil, nil, err
 		}
 	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
+		// Nothing follows a failure on this stream
+		r.finishedConsume, r.consumeErr = true, err
 		return nil, nil, err
 	}
 
@@ -251,9 +279,14 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 	if r.closed {
 		return nil, nil, nil, errors.New("Rows are already closed")
 	}
+	if r.finishedConsume {
+		return nil, nil, nil, r.ended()
+	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
+		// Nothing follows a failure on this stream
+		r.finishedConsume, r.consumeErr = true, err
 		return nil, nil, nil, err
 	}
 
@@ -261,13 +294,14 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 	case messages.SuccessMessage:
 		log.Infof("Got success message: %#v", resp)
 
+		r.finishedConsume = true
 		if r.pipelineIndex == len(r.statement.queries)-1 {
-			r.finishedConsume = true
 			return nil, nil, nil, err
 		}
 
 		successResp, err := r.statement.conn.consume()
 		if err != nil && err != io.EOF {
+			r.consumeErr = err
 			return nil, nil, nil, errors.Wrap(err, "An error occurred getting next set of rows from pipeline command: %#v", successResp)
 		}
 
-- 
2.43.0


From f993cc292e9bffe9809939cda861982c94f7f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:27 +0000
Subject: [PATCH 12/25] fix: clear out the rows of a query when its statement
 is closed

---
 stmt.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stmt.go b/stmt.go
index 42a6f32..d9fbac2 100644
--- a/stmt.go
+++ b/stmt.go
@@ -59,8 +59,11 @@ func (s *boltStmt) Close() error {
 		return nil
 	}
 
-	if s.rows != nil && !s.rows.closeStatement {
-		if err := s.rows.Close(); err != nil {
+	var err error
+	if s.rows != nil {
+		err = s.rows.Close()
+		if s.closed {
+			// The rows took the statement with them
 			return err
 		}
 	}
@@ -68,7 +71,7 @@ func (s *boltStmt) Close() error {
 	s.closed = true
 	s.conn.statement = nil
 	s.conn = nil
-	return nil
+	return err
 }
 
 // NumInput returns the number of placeholder parameters. See sql/driver.Stmt.
-- 
2.43.0


From 953d24bf02b4e4d25cd7fcb0234dcaa1f5543702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:53 +0000
Subject: [PATCH 13/25] fix: release the connection on Close even if ending the
 session fails

---
 conn.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index e665ba7..d2936f8 100644
--- a/conn.go
+++ b/conn.go
@@ -374,15 +374,17 @@ func (c *boltConn) Close() error {
 		return nil
 	}
 
+	// The connection is given up even if the session can't be ended cleanly
+	var closeErr error
 	if c.statement != nil {
 		if err := c.statement.Close(); err != nil {
-			return err
+			closeErr = err
 		}
 	}
 
 	if c.transaction != nil {
 		if err := c.transaction.Rollback(); err != nil {
-			return errors.Wrap(err, "Error rolling back transaction when closing connection")
+			closeErr = errors.Wrap(err, "Error rolling back transaction when closing connection")
 		}
 	}
 
@@ -394,19 +396,19 @@ func (c *boltConn) Close() error {
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
-		return nil
+		return closeErr
 	}
 
+	c.closed = true
 	if c.conn != nil {
 		err := c.conn.Close()
-		c.closed = true
 		if err != nil {
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
 	}
 
-	return nil
+	return closeErr
 }
 
 func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
@@ -467,6 +469,7 @@ func (c *boltConn) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
+			c.connErr = errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
 			err = c.Close()
 			if err != nil {
 				log.Errorf("An error occurred closing the session: %s", err)
-- 
2.43.0


From 1fb0bfc2aa87d1d1213c834fb77ae239222f3d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:21 +0000
Subject: [PATCH 14/25] fix: leave the connection usable when a pipeline can't
 be sent or a query fails

---
 conn.go | 21 ++++++++++++++++-----
 stmt.go |  5 +++++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index d2936f8..ae39aad 100644
--- a/conn.go
+++ b/conn.go
@@ -634,6 +634,14 @@ func (c *boltConn) consumeAllMultiple(mult int) ([][]interface{}, []interface{},
 	return responses, successes, nil
 }
 
+// consumePipeline clears out the responses to the queries of a pipeline
+// that were already sent when the pipeline had to be given up
+func (c *boltConn) consumePipeline(queries int) {
+	if _, _, err := c.consumeAllMultiple(queries * 2); err != nil {
+		log.Errorf("An error occurred clearing out responses of an incomplete pipeline: %s", err)
+	}
+}
+
 func (c *boltConn) sendInit() (interface{}, error) {
 	log.Infof("Sending INIT Message. ClientID: %s User: %s", ClientID, c.user)
 
@@ -801,17 +809,18 @@ func (c *boltConn) queryNeo(query string, params map[string]interface{}) (*boltR
 		return nil, errors.New("Connection already closed")
 	}
 
-	c.statement = newStmt(query, c)
+	stmt := newStmt(query, c)
+	c.statement = stmt
 
 	// Pipeline the run + pull all for this
 	successResp, err := c.sendRunPullAllConsumeRun(c.statement.query, params)
 	if err != nil {
-		c.statement.Close()
+		stmt.Close()
 		return nil, err
 	}
 	success, ok := successResp.(messages.SuccessMessage)
 	if !ok {
-		c.statement.Close()
+		stmt.Close()
 		return nil, errors.New("Unexpected response querying neo from connection: %#v", successResp)
 	}
 
@@ -827,9 +836,11 @@ func (c *boltConn) QueryPipeline(queries []string, params ...map[string]interfac
 		return nil, errors.New("Connection already closed")
 	}
 
-	c.statement = newPipelineStmt(queries, c)
-	rows, err := c.statement.QueryPipeline(params...)
+	stmt := newPipelineStmt(queries, c)
+	c.statement = stmt
+	rows, err := stmt.QueryPipeline(params...)
 	if err != nil {
+		stmt.Close()
 		return nil, err
 	}
 
diff --git a/stmt.go b/stmt.go
index d9fbac2..02d6dc3 100644
--- a/stmt.go
+++ b/stmt.go
@@ -137,6 +137,7 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
+			s.conn.consumePipeline(i)
 			return nil, errors.Wrap(err, "Error running exec query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
 		}
 	}
@@ -221,10 +222,14 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 	if len(params) != len(s.queries) {
 		return nil, errors.New("Must pass same number of params as there are queries")
 	}
+	if len(s.queries) == 0 {
+		return nil, errors.New("Must pass at least one query")
+	}
 
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
+			s.conn.consumePipeline(i)
 			return nil, errors.Wrap(err, "Error running query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
 		}
 	}
-- 
2.43.0


From 376f2f8d3940a1b1e7bf063a65aa550a96152ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:22 +0000
Subject: [PATCH 15/25] fix: return errors instead of panicking on unexpected
 types and column counts

---
 result.go | 28 ++++++++++------------------
 rows.go   |  4 ++++
 util.go   |  7 ++++++-
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/result.go b/result.go
index 6011a86..c6b4090 100644
--- a/result.go
+++ b/result.go
@@ -50,24 +50,16 @@ func (r boltResult) RowsAffected() (int64, error) {
 	}
 
 	var rowsAffected int64
-	nodesCreated, ok := stats["nodes-created"]
-	if ok {
-		rowsAffected += nodesCreated.(int64)
-	}
-
-	relsCreated, ok := stats["relationships-created"]
-	if ok {
-		rowsAffected += relsCreated.(int64)
-	}
-
-	nodesDeleted, ok := stats["nodes-deleted"]
-	if ok {
-		rowsAffected += nodesDeleted.(int64)
-	}
-
-	relsDeleted, ok := stats["relationships-deleted"]
-	if ok {
-		rowsAffected += relsDeleted.(int64)
+	for _, name := range []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"} {
+		stat, ok := stats[name]
+		if !ok {
+			continue
+		}
+		count, ok := stat.(int64)
+		if !ok {
+			return -1, errors.New("Unrecognized type for stat %s: %#v", name, r.metadata)
+		}
+		rowsAffected += count
 	}
 
 	return rowsAffected, nil
diff --git a/rows.go b/rows.go
index fa21cfd..6274b8c 100644
--- a/rows.go
+++ b/rows.go
@@ -199,6 +199,10 @@ func (r *boltRows) Next(dest []driver.Value) error {
 		return err
 	}
 
+	if len(data) > len(dest) {
+		return errors.New("Row has %d columns, but expected %d", len(data), len(dest))
+	}
+
 	for i, item := range data {
 		switch item := item.(type) {
 		case []interface{}, map[string]interface{}, graph.Node, graph.Path, graph.Relationship, graph.UnboundRelationship:
diff --git a/util.go b/util.go
index 4e16ab7..5809a08 100644
--- a/util.go
+++ b/util.go
@@ -42,7 +42,12 @@ func driverArgsToMap(args []driver.Value) (map[string]interface{}, error) {
 			return nil, err
 		}
 
-		for k, v := range m.(map[string]interface{}) {
+		params, ok := m.(map[string]interface{})
+		if !ok {
+			return nil, fmt.Errorf("Expected an encoded map in the Exec/Query args, but got %T", m)
+		}
+
+		for k, v := range params {
 			output[k] = v
 		}
 
-- 
2.43.0


From 77e0b7c75420a9d0a835fee5414704f1d76b6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:16 +0000
Subject: [PATCH 16/25] fix: don't return failed, bad or already closed
 connections to the pool

---
 conn.go   | 2 ++
 driver.go | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index ae39aad..2845647 100644
--- a/conn.go
+++ b/conn.go
@@ -289,6 +289,7 @@ func (c *boltConn) initialize() error {
 	}
 
 	if err := c.handShake(); err != nil {
+		c.connErr = err
 		if e := c.Close(); e != nil {
 			log.Errorf("An error occurred closing connection: %s", e)
 		}
@@ -297,6 +298,7 @@ func (c *boltConn) initialize() error {
 
 	respInt, err := c.sendInit()
 	if err != nil {
+		c.connErr = err
 		if e := c.Close(); e != nil {
 			log.Errorf("An error occurred closing connection: %s", e)
 		}
diff --git a/driver.go b/driver.go
index 1bbf0c6..911c92f 100644
--- a/driver.go
+++ b/driver.go
@@ -177,6 +177,11 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 	var newConn *boltConn
 	var err error
 	if conn.connErr != nil || conn.closed {
+		if conn.conn != nil {
+			if err := conn.conn.Close(); err != nil {
+				log.Errorf("An error occurred closing bad connection: %s", err)
+			}
+		}
 		newConn, err = newPooledBoltConn(d.connStr, d)
 		if err != nil {
 			return err
@@ -188,8 +193,9 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 		*newConn = *conn
 	}
 
+	// This connection belongs to the pool now
+	conn.closed = true
 	d.pool <- newConn
-	conn = nil
 
 	return nil
 }
-- 
2.43.0


From 95b7978f6ef45a5abb643426fdcf4b9cb361e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:52 +0000
Subject: [PATCH 17/25] fix: let the pool be closed while connections are in
 use or waited for

---
 driver.go | 71 +++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/driver.go b/driver.go
index 911c92f..ed5d2a8 100644
--- a/driver.go
+++ b/driver.go
@@ -90,6 +90,7 @@ type boltDriverPool struct {
 	connRefs []*boltConn
 	refLock  sync.Mutex
 	closed   bool
+	closing  chan struct{} // closed when the pool is, to stop waiting for a connection
 }
 
 // NewDriverPool creates a new Driver object with connection pooling
@@ -107,6 +108,7 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 		connStr:  connStr,
 		maxConns: max,
 		pool:     make(chan *boltConn, max),
+		closing:  make(chan struct{}),
 	}
 
 	for i := 0; i < max; i++ {
@@ -123,23 +125,54 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 
 // OpenPool opens a returns a Bolt connection from the pool to the Neo4J database.
 func (d *boltDriverPool) OpenPool() (Conn, error) {
-	// For each connection request we need to block in case the Close function is called. This gives us a guarantee
-	// when closing the pool no new connections are made.
+	// The lock isn't held while waiting for a connection, so that the pool can be closed meanwhile
 	d.refLock.Lock()
-	defer d.refLock.Unlock()
-	if !d.closed {
-		conn := <-d.pool
+	closed := d.closed
+	d.refLock.Unlock()
+	if !closed {
+		var conn *boltConn
+		select {
+		case conn = <-d.pool:
+		case <-d.closing:
+			return nil, errors.New("Driver pool has been closed")
+		}
 		if connectionNilOrClosed(conn) {
+			d.swapRef(conn, nil)
+			if conn.conn != nil {
+				conn.conn.Close()
+			}
 			if err := conn.initialize(); err != nil {
 				return nil, err
 			}
-			d.connRefs = append(d.connRefs, conn)
+			if !d.swapRef(nil, conn) {
+				// The pool was closed while connecting. This gives us a guarantee
+				// when closing the pool no new connections are made.
+				conn.Close()
+				return nil, errors.New("Driver pool has been closed")
+			}
 		}
 		return conn, nil
 	}
 	return nil, errors.New("Driver pool has been closed")
 }
 
+// swapRef replaces a reference to a live connection, unless the pool is
+// closed. Either one may be nil, to only add or only remove a reference.
+func (d *boltDriverPool) swapRef(from, to *boltConn) bool {
+	d.refLock.Lock()
+	defer d.refLock.Unlock()
+	for i, conn := range d.connRefs {
+		if conn == from {
+			d.connRefs = append(d.connRefs[:i], d.connRefs[i+1:]...)
+			break
+		}
+	}
+	if to != nil && !d.closed {
+		d.connRefs = append(d.connRefs, to)
+	}
+	return !d.closed
+}
+
 func connectionNilOrClosed(conn *boltConn) (bool) {
 	if(conn.conn == nil) {//nil check before attempting read
 		return true
@@ -159,24 +192,29 @@ func (d *boltDriverPool) Close() error {
 	// Lock the connection ref so no new connections can be added
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
-	for _, conn := range d.connRefs {
-		// Remove the reference to the pool, to allow a clean up of the connection
-		conn.poolDriver = nil
-		err := conn.Close()
-		if err != nil {
-			d.closed = true
-			return err
-		}
+	if d.closed {
+		return nil
 	}
 	// Mark the pool as closed to stop any new connections
 	d.closed = true
-	return nil
+	close(d.closing)
+
+	var err error
+	for _, conn := range d.connRefs {
+		// The connection may be in use by another routine, so only its socket can be closed here
+		if e := conn.conn.Close(); e != nil && err == nil {
+			err = e
+		}
+	}
+	d.connRefs = nil
+	return err
 }
 
 func (d *boltDriverPool) reclaim(conn *boltConn) error {
 	var newConn *boltConn
 	var err error
 	if conn.connErr != nil || conn.closed {
+		d.swapRef(conn, nil)
 		if conn.conn != nil {
 			if err := conn.conn.Close(); err != nil {
 				log.Errorf("An error occurred closing bad connection: %s", err)
@@ -191,6 +229,9 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 		// it isn't held on to
 		newConn = &boltConn{}
 		*newConn = *conn
+		if newConn.conn != nil && !d.swapRef(conn, newConn) {
+			newConn.conn.Close()
+		}
 	}
 
 	// This connection belongs to the pool now
-- 
2.43.0


From 0593e82d2f451bd35635d0a268b7007c07069351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:18 +0000
Subject: [PATCH 18/25] fix: don't report a truncated message as the end of the
 rows

---
 encoding/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index af165f4..8f93757 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -99,7 +99,8 @@ func (d Decoder) Decode() (interface{}, error) {
 
 	val, err := d.decode(data)
 	if err != nil {
-		return nil, err
+		// Not to be taken for the io.EOF at the end of the rows
+		return nil, errors.Wrap(err, "An error occurred decoding message")
 	} else if data.Len() > 0 {
 		return nil, errors.New("%d bytes left over after decoding message", data.Len())
 	}
-- 
2.43.0


From 159059981d284b28f947bfd06f640cacbff6c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 19/25] fix: don't allocate for list items and map entries
 before they are read

Nested lists that each claim the rest of the message as their size made the
decoder allocate memory quadratic in the size of the message.
---
 encoding/decoder.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 8f93757..56e6e34 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -268,13 +268,15 @@ func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, err
 	if size < 0 || size > buffer.Len() {
 		return nil, errors.New("Slice of %d items exceeds the %d bytes left in the message", size, buffer.Len())
 	}
-	slice := make([]interface{}, size)
+	// Allocate only for items that are really there: in nested slices
+	// the same bytes would be accounted for over and over
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
@@ -285,7 +287,7 @@ func (d Decoder) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface
 	if size < 0 || size > buffer.Len()/2 {
 		return nil, errors.New("Map of %d entries exceeds the %d bytes left in the message", size, buffer.Len())
 	}
-	mapp := make(map[string]interface{}, size)
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
-- 
2.43.0


From 74c96f5c3a504388db5cf6a3d993aa70e93115de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:40 +0000
Subject: [PATCH 20/25] fix: limit the nesting of messages instead of
 exhausting the stack

A message of a few megabytes of nested lists ended the whole process with a
stack overflow, which can't be recovered from.
---
 encoding/decoder.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 56e6e34..ae78532 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -19,10 +19,14 @@ import (
 // map[string]interface{} and []interface{} are supported.
 // The interface for maps and slices may be more permissive in the future.
 type Decoder struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int // how deep the value being decoded is nested in others
 }
 
+// maxDepth is how deep values can be nested, so that no message exhausts the stack
+const maxDepth = 10000
+
 // structSizes holds the number of fields for the structures with a fixed layout
 var structSizes = map[byte]int{
 	graph.NodeSignature:                 3,
@@ -109,6 +113,11 @@ func (d Decoder) Decode() (interface{}, error) {
 }
 
 func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
+	// This is a copy that goes along with the nested values only
+	d.depth++
+	if d.depth > maxDepth {
+		return nil, errors.New("Message is nested more than %d levels deep", maxDepth)
+	}
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
-- 
2.43.0


From fa2dbfaee859902af6bd91efc1b1e4c7e381756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:53 +0000
Subject: [PATCH 21/25] fix: reject a nil pointer to a structure instead of
 panicking

---
 encoding/encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 1b6966b..de00490 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -219,6 +219,9 @@ func (e Encoder) encode(iVal interface{}) error {
 	case map[string]interface{}:
 		err = e.encodeMap(val)
 	case structures.Structure:
+		if s := reflect.ValueOf(val); s.Kind() == reflect.Ptr && s.IsNil() {
+			return errors.New("Cannot encode a nil pointer to a structure: %T", val)
+		}
 		err = e.encodeStructure(val)
 	default:
 		// arbitrary slice types
-- 
2.43.0


From b6e37e6581dbaba7047e64679371f4fdaf80ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:26 +0000
Subject: [PATCH 22/25] fix: apply the timeout of the connection string to
 dialing with TLS

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 2845647..6fd8c61 100644
--- a/conn.go
+++ b/conn.go
@@ -183,7 +183,7 @@ func (c *boltConn) createConn() (net.Conn, error) {
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred setting up TLS configuration")
 		}
-		conn, err = tls.Dial("tcp", c.url.Host, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.url.Host, config)
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred dialing to neo4j")
 		}
-- 
2.43.0


From 931e8b74ec87ad2b46443489391de0201a60613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 23/25] fix: tell database/sql when a connection is broken

The errors of a broken connection reach database/sql wrapped, so it never
took them for driver.ErrBadConn: it kept the connection in its pool and every
later call failed.
---
 conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conn.go b/conn.go
index 6fd8c61..c4361fd 100644
--- a/conn.go
+++ b/conn.go
@@ -368,6 +368,12 @@ func (c *boltConn) Write(b []byte) (n int, err error) {
 	return n, err
 }
 
+// IsValid tells whether the connection can still be used. See sql/driver.Validator.
+// A connection that met an error isn't reused by the database/sql pool.
+func (c *boltConn) IsValid() bool {
+	return c.connErr == nil && !c.closed
+}
+
 // Close closes the connection
 // Driver may allow for pooling in the future, keeping connections alive
 func (c *boltConn) Close() error {
-- 
2.43.0


From 6196180514b8ccd483b895b9f3ee3d2ebb4ab867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:31 +0000
Subject: [PATCH 24/25] fix: refuse a CA file that contains no certificate

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index c4361fd..b656ccd 100644
--- a/conn.go
+++ b/conn.go
@@ -210,7 +210,9 @@ func (c *boltConn) tlsConfig() (*tls.Config, error) {
 			return nil, err
 		}
 		caCertPool := x509.NewCertPool()
-		caCertPool.AppendCertsFromPEM(caCert)
+		if !caCertPool.AppendCertsFromPEM(caCert) {
+			return nil, errors.New("No certificates found in CA cert file: %s", c.caCertFile)
+		}
 
 		config.RootCAs = caCertPool
 	}
-- 
2.43.0


From 559e546c260e11368c82e7f4cf749011111bdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:23 +0000
Subject: [PATCH 25/25] fix: refuse values nested too deep to be decoded

A value that contains itself exhausted the stack, which ends the process,
and values nested more than 10000 levels deep were encoded but are refused
when decoded.
---
 encoding/encoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index de00490..13078b9 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -85,6 +85,7 @@ type Encoder struct {
 	w         io.Writer
 	buf       *bytes.Buffer
 	chunkSize uint16
+	depth     int // how deep the value being encoded is nested in others
 }
 
 // NewEncoder Creates a new Encoder object
@@ -178,6 +179,12 @@ func (e Encoder) Encode(iVal interface{}) error {
 
 // Encode encodes an object to the stream
 func (e Encoder) encode(iVal interface{}) error {
+	// This is a copy that goes along with the nested values only. A value
+	// that contains itself would never end
+	e.depth++
+	if e.depth > maxDepth {
+		return errors.New("Value is nested more than %d levels deep", maxDepth)
+	}
 
 	var err error
 	switch val := iVal.(type) {
-- 
2.43.0

