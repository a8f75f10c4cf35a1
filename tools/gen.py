#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, observe=observe, note=note))

prop("C01", "Values survive encoding and decoding unchanged",
 "Every value that can be encoded (null, booleans, every Go integer type, floats, strings, lists, typed slices, maps, nodes, relationships, paths) decodes to an equal value, whatever its size, nesting or the chunk size used. Integers of any Go type come back as int64 with the same number, floats with the same bits, strings with the same bytes, typed slices as lists of the same elements.",
 ["inputs", "configurations"], "all values within the size and nesting bounds, all chunk sizes of the bound",
 "Tests round-trip a few dozen hand-picked values; the size boundaries of every type and the combinations of nesting and chunk size are beyond them.",
 ["encoding/encoder.go", "encoding/decoder.go", "structures/graph/*.go"],
 [("Encoder.Encode / Marshal", "encoding/encoder.go"), ("Decoder.Decode / Unmarshal", "encoding/decoder.go")],
 ["encoding.Marshal then encoding.Unmarshal"],
 "Symbolic scalars over their full range; strings, lists and maps at and around every marker boundary; nesting depth 2 (thorough 3), width 2.")
prop("C02", "Encoded bytes are what the Bolt specification prescribes",
 "The bytes produced for a value or message are a valid PackStream encoding of it: marker for its type, big-endian sizes and numbers, the smallest integer form, and message structures with their signature and fields in order. Any conforming Bolt server therefore reads exactly the value that was given.",
 ["inputs"], "all values within the bounds, all message types",
 "Tests compare bytes for chosen constants only; every integer, length boundary and message field combination is a quantified claim.",
 ["encoding/encoder.go", "structures/messages/*.go"],
 [("encode* functions and markers", "encoding/encoder.go"), ("Signature/AllFields of messages", "structures/messages")],
 ["bytes written by the encoder, compared with an independent reference encoder"],
 "Oracle: an independent reference encoder/decoder written from the Bolt specification (harness package ref).")
prop("C03", "Messages are framed in well-formed chunks for every chunk size",
 "Whatever the chunk size (0 to 65535) and message length, what is written is a sequence of chunks whose two-byte length equals their data, followed by exactly one zero-length end marker per message. Joining the chunks gives the message, and no zero-length chunk occurs inside one.",
 ["inputs", "configurations"], "all chunk sizes, message lengths up to the bound (including over 65535 bytes)",
 "Tests use a handful of chunk sizes; off-by-one errors show only where lengths meet chunk boundaries.",
 ["encoding/encoder.go"], [("Encoder.flush/write and chunk splitting", "encoding/encoder.go")],
 ["bytes on the writer"],
 "All chunk sizes for small messages; boundary chunk sizes for messages up to 70000 bytes.")
prop("C04", "Chunked messages are reassembled however the stream is cut",
 "A message split into chunks at arbitrary points and arriving in arbitrary pieces decodes to the same value, and decoding takes exactly that message's bytes from the stream. A stream that ends or fails inside a message gives an error and never a value.",
 ["inputs", "fault_sequences"], "all chunk splits, read fragmentations and truncation points within the bound",
 "Recordings replay whole messages; splits and short reads that a network produces never occur in the tests.",
 ["encoding/decoder.go"], [("Decoder.read / readData", "encoding/decoder.go")],
 ["Decoder.Decode over a scripted io.Reader"],
 "All splits of messages up to a few chunks; every truncation point; data returned together with an error.")
prop("C05", "Decoding arbitrary bytes never panics or over-allocates",
 "For every byte stream the decoder returns a value or an error: it does not panic, loop forever or allocate more than a small multiple of the bytes received. This holds for hostile sizes and for structures with wrong field types or counts.",
 ["inputs"], "all byte sequences up to the bound, in arbitrary framing",
 "No test feeds malformed input; the input space is beyond sampling.",
 ["encoding/decoder.go"], [("size checks and typed field decoding", "encoding/decoder.go")],
 ["Unmarshal of arbitrary bytes under an allocation limit"],
 "Arbitrary payloads up to 4 (thorough 5) bytes, plus arbitrary sizes in every 1, 2 and 4 byte size field and arbitrary field types and counts in every structure.")
prop("C06", "Malformed messages are rejected, well-formed ones decoded exactly",
 "Decoding a message succeeds exactly if its bytes are one well-formed value (with known structures and nothing left over), and then gives the value the Bolt specification assigns to it. Truncated values, sizes beyond the message, trailing bytes, unknown markers or signatures, and structures of the wrong shape are errors.",
 ["inputs"], "all byte sequences up to the bound",
 "Tests decode valid messages only.",
 ["encoding/decoder.go"], [("Decoder.decode and decodeStruct", "encoding/decoder.go")],
 ["Unmarshal compared with an independent reference decoder on the same bytes"],
 "Differential against the reference decoder; payloads up to 4 (thorough 5) arbitrary bytes, all structure signatures and field counts, truncation at every byte.")
prop("C07", "Unencodable values are refused and nothing of them is sent",
 "A value without a Bolt representation (unsupported Go types, map keys that are not strings, integers above the int64 range, values that contain themselves), anywhere inside a larger value, makes encoding fail with an error instead of a panic. Nothing is written for it, and the encoder then works for the next value; write errors are reported.",
 ["inputs", "fault_sequences"], "all placements of an unencodable value, all chunk sizes of the bound, every failing write",
 "Tests never encode an unsupported value nested in a partly encoded message.",
 ["encoding/encoder.go"], [("Encoder.Encode buffering", "encoding/encoder.go")],
 ["bytes on the writer after a failed Encode"],
 "Known finding: a Go uint above MaxInt64 wraps (pinned by an existing test).")
prop("C08", "The server receives exactly the requests the caller made",
 "Every call sends exactly its own requests, once and in order: a query and its parameters reach the server unchanged in one RUN with its PULL_ALL or DISCARD_ALL, whatever the chunk size or message size; transactions send BEGIN, COMMIT or ROLLBACK; preparing sends nothing. A call whose parameters cannot be encoded sends nothing and leaves the connection usable.",
 ["inputs", "configurations"], "arbitrary query texts and parameter values within the bound, all entry points, several chunk sizes",
 "The recordings only compare lengths of what is written, for fixed queries.",
 ["conn.go", "stmt.go", "tx.go", "structures/messages/*.go"],
 [("sendRun*, sendPullAll*", "conn.go"), ("ExecNeo, QueryNeo, pipelines", "stmt.go")],
 ["requests parsed by a model of a Bolt server behind net.Conn"],
 "Symbolic query text and parameters through all seven entry points.")
prop("C09", "A connection is established only with a willing, compatible server",
 "Opening succeeds exactly if the server answers the handshake with the offered version and INIT with success, however the answers are fragmented; the user and password of the connection string reach the server unchanged. Otherwise opening returns an error (with the server's failure as its cause, when it sent one), the socket is released, and nothing more is sent on it.",
 ["inputs", "fault_sequences"], "all version replies, INIT answers, fragmentations and single transport faults",
 "Tests connect to one recorded healthy server and one recorded failure.",
 ["conn.go", "driver.go"], [("handShake, initialize, sendInit", "conn.go")],
 ["OpenNeo against a model server"],
 "All 2^32 version replies symbolically; arbitrary short INIT answers; every I/O operation failing in six ways.")
prop("C10", "The connection string decides host, credentials, timeout and TLS",
 "The driver dials the host and port of the connection string with its timeout, and refuses other schemes, users without passwords and malformed timeouts before dialing. TLS is used exactly when asked for and never downgraded to plain TCP; certificate verification is off only when asked for, the configured CA and client certificate are the ones used, and a configuration that cannot be loaded is an error.",
 ["inputs", "configurations"], "all schemes, hosts, timeouts and TLS parameter combinations within the bound",
 "Tests check a few fixed strings and never look at the TLS configuration.",
 ["conn.go"], [("parseURL, createConn, tlsConfig", "conn.go")],
 ["arguments of the dial, configuration handed to tls.Dial"],
 "net.Dial and tls.Dial are stand-ins that record their arguments.")
prop("C11", "Every query gets its own answer",
 "On one connection, whatever sequence of queries and prepared statements is executed, read, partly read, abandoned or closed, each call returns the rows, columns and metadata the server sent for that very query. When everything is closed, no response is left unread.",
 ["histories"], "all sequences of operations up to the bound, all server plans (records, failures) within the bound",
 "Tests replay about twenty fixed recordings; they do not close rows early, interleave statements and failures, or look at what is left on the wire.",
 ["conn.go", "stmt.go", "rows.go"], [("consume*, send*Consume*", "conn.go"), ("Rows.Close draining", "rows.go")],
 ["results of calls against a model server with arbitrary data"],
 "All sequences up to 4 (thorough 5) operations; server conforms to Bolt v1.")
prop("C12", "Server failures are reported, acknowledged and survivable",
 "When the server refuses any request, the call that depends on it returns an error whose innermost cause is the server's failure with its metadata, never a success or a silent end of rows. The failure is acknowledged exactly once (or the session reset if that is refused), responses to requests sent after it are skipped, and the connection then answers later calls correctly.",
 ["histories", "fault_sequences"], "a failure at any request of any call, followed by any call",
 "Two recordings contain one failure each, and none continues after a failure in a pipeline or transaction.",
 ["conn.go", "rows.go", "stmt.go", "tx.go"], [("consume, ackFailure, reset", "conn.go")],
 ["errors returned, ACK_FAILURE and RESET seen by the model server"],
 "Failures at RUN and in the stream, of all nine kinds of calls, in pairs.")
prop("C13", "Rows are streamed completely, in order and unchanged",
 "Reading rows gives every record the server sent for the query, with its fields unchanged and in order, then the summary with io.EOF, and afterwards no row at all and no further traffic; a stream that fails gives the failure and not io.EOF. Columns and metadata are those announced by the server, and closing rows at any point leaves the connection ready for the next query.",
 ["inputs", "histories"], "all record contents and counts within the bound, all sequences of Next, All and Close",
 "Tests read a few recorded results to the end.",
 ["rows.go"], [("NextNeo, All, Close", "rows.go")],
 ["Rows interface against a model server with symbolic records"],
 "Up to 3 records (20 in one harness), arbitrary field values.")
prop("C14", "Pipelines answer each query in order and leave nothing behind",
 "A pipeline runs its queries in order and gives each its own result or rows; moving from one query's rows to the next loses and repeats nothing. Whatever happens inside (a failing query, parameters that cannot be encoded or do not match the queries in number, closing early, using rows of an earlier query), an error is returned where one is due and the connection stays usable.",
 ["histories", "inputs"], "pipelines of 0 to 4 queries, all sequences of operations, failures and bad parameters within the bound",
 "Tests run two recorded pipelines that succeed.",
 ["stmt.go", "rows.go", "conn.go"], [("ExecPipeline, QueryPipeline", "stmt.go"), ("NextPipeline, finish", "rows.go")],
 ["pipeline interfaces against a model server"],
 "All sequences up to 4 operations; failures anywhere.")
prop("C15", "Transactions end as the caller decided, exactly once",
 "Begin opens a server transaction, Commit sends exactly one COMMIT and Rollback exactly one ROLLBACK, and success is reported only if the server confirmed it; nothing is committed after a failure of rows still open. A finished transaction refuses to be used again without touching a later one, only one is open per connection, and closing the connection rolls an open one back.",
 ["histories", "fault_sequences"], "all sequences of operations up to the bound with a failure at any request",
 "Tests contain one commit and one rollback.",
 ["tx.go", "conn.go"], [("Commit, Rollback", "tx.go"), ("Begin, Close", "conn.go")],
 ["transactions seen by the model server, errors returned"],
 "All sequences up to 4 operations after Begin, with statements and rows open.")
prop("C16", "Misused or closed handles fail cleanly",
 "Using a closed connection, statement, rows or transaction, or starting work while a statement is open, returns an error without panicking and without sending anything. Closing anything again succeeds and does nothing, and closing a connection closes everything opened on it.",
 ["histories"], "all sequences of API calls up to the bound, closed handles used after every step",
 "Tests close things in the right order.",
 ["conn.go", "stmt.go", "rows.go", "tx.go"], [("closed flags and open statement checks", "conn.go, stmt.go, rows.go, tx.go")],
 ["errors and traffic"],
 "All sequences up to 3 (thorough 4) of 20 operations.")
prop("C17", "A broken connection yields errors, never wrong data",
 "If any read, write or deadline fails, or the stream ends or is malformed at any byte, each call either gives the right result or an error, and a lost connection is never taken for the end of rows. After the error nothing more is read or written on the connection and every later call fails.",
 ["fault_sequences", "crash_points"], "every I/O operation failing in six ways, every truncation point, during any kind of call",
 "The recorder never produces an I/O error.",
 ["conn.go", "encoding/decoder.go", "rows.go"], [("Read, Write, decode", "conn.go")],
 ["results of calls against a model server with injected faults"],
 "One fault per history; its position and kind are symbolic.")
prop("C18", "Closing a connection always releases its socket",
 "Close closes the underlying socket exactly once, whatever is open on the connection (statements, rows, pipelines, transactions), even if the rollback is refused or the transport fails meanwhile, and reports an error closing the socket. It never commits, and closing again does nothing.",
 ["histories", "fault_sequences"], "all states reachable within the bound, every fault during closing",
 "Tests close idle connections.",
 ["conn.go"], [("Close", "conn.go")], ["Close calls on the socket"],
 "All sequences up to 3 operations before; every I/O operation of closing failing in six ways.")
prop("C19", "Pooled connections are exclusive, clean and never lost",
 "A connection taken from a pool works, belongs to nobody else, and has no transaction, rows or unread responses of an earlier user; giving it back (once or repeatedly) makes exactly one connection available again, and a handle given back causes no traffic. Broken connections are replaced, a failed connect does not shrink the pool, and there are never more open sockets than the pool's size.",
 ["histories", "fault_sequences"], "pools of 1 and 2, all sequences of operations up to the bound, connects failing in any way",
 "Tests open and close one or two pooled connections in order.",
 ["driver.go", "conn.go"], [("OpenPool, reclaim", "driver.go"), ("Close", "conn.go")],
 ["sockets and requests seen by model servers"],
 "All sequences up to 4 (thorough 5) operations. A connection lost while idle is outside (zero-byte reads cannot detect it).")
prop("C20", "Drivers and pools are safe for concurrent use",
 "Users sharing a pool (or driver) from several goroutines never get the same connection at the same time, never see each other's results, and never deadlock: whoever waits gets a connection when one is given back, also when connections break. There are no data races in the driver.",
 ["schedules", "fault_sequences"], "2 or 3 goroutines, all schedules up to a preemption bound, one lost connection at any point",
 "The tests are sequential apart from one unordered stress of a pool.",
 ["driver.go"], [("pool channel, reference list and lock", "driver.go")],
 ["results, overlapping socket use, deadlock and happens-before race detection in the symbolic scheduler"],
 "Preemption bound 1 to 2 (thorough 2 to 3) at synchronisation and I/O points.")
prop("C21", "Closing a pool closes every connection and wakes every waiter",
 "After a pool is closed, taking a connection is refused, users still holding one get errors and not wrong results, nobody waits forever, and once they have given theirs back every socket the pool opened is closed. This holds when closing coincides with taking, connecting, using or giving back connections, and closing again is harmless.",
 ["schedules", "histories"], "all states of 1 or 2 connections, all schedules up to the preemption bound",
 "One test closes an idle pool.",
 ["driver.go"], [("Close, closing channel, swapRef", "driver.go")],
 ["sockets of model servers, blocked goroutines"],
 "Preemption bound 2 (thorough 3).")
prop("C22", "The database/sql interface converts arguments and rows faithfully",
 "Through database/sql, arguments that are encoded maps reach the server as one set of parameters, and anything else is refused without traffic. Rows deliver scalars as they are and lists, maps, nodes, relationships and paths as bytes that decode to them, end in io.EOF, and a destination that is too short is an error; nothing panics. Every call of a sql.DB runs its query at most once, and a connection that broke is replaced: later calls get a new one.",
 ["inputs"], "all argument and row values within the bound, all four entry points",
 "The sql tests need a live database and are skipped.",
 ["util.go", "conn.go", "stmt.go", "rows.go"], [("driverArgsToMap", "util.go"), ("Rows.Next", "rows.go")],
 ["driver.Conn, driver.Stmt, driver.Rows and sql.DB against a model server"],
 "Two (thorough: three) calls of a sql.DB limited to one connection; database/sql's own code is executed as well.")
prop("C23", "Results report what the server's statistics say",
 "RowsAffected is the sum of nodes and relationships created and deleted in the server's statistics, zero when there are none, and an error when they have another type; LastInsertId is always -1 and the metadata is the server's. In a pipeline every result has its own.",
 ["inputs"], "all subsets of counters with arbitrary values, all ill-typed metadata within the bound",
 "Tests look at one recorded set of statistics.",
 ["result.go"], [("RowsAffected", "result.go")], ["Result interface"],
 "Counters up to 16 (thorough 32) bits.")
prop("C24", "Every read and write has its own deadline",
 "Each read and write on the socket is preceded by setting its deadline to the connection's timeout from then: 60 seconds by default, the seconds given in the connection string, or what SetTimeout set last. The same timeout applies to dialing.",
 ["inputs", "histories"], "all timeouts within the bound, every I/O operation of any call",
 "Recordings ignore deadlines.",
 ["conn.go"], [("Read, Write, SetTimeout, parseURL", "conn.go")],
 ["deadlines set on the socket against the clock"],
 "Timeouts of 1 to 3 arbitrary digits in the URL and arbitrary 32 bit milliseconds for SetTimeout.")
prop("C25", "Errors keep their cause and all messages",
 "An error wrapped any number of times gives the first cause as its innermost error and the directly wrapped one as its inner error. Its text contains every message from the outermost to the cause.",
 ["inputs"], "chains of 0 to 6 wraps with arbitrary texts over every kind of cause",
 "No test looks at error chains.",
 ["errors/errors.go"], [("Wrap, InnerMost, Error", "errors/errors.go")], ["errors package"],
 "Causes: a plain error, a server failure, an error made by New.")
prop("C26", "Logging obeys its level and never changes behaviour",
 "Exactly the messages of the set level and the more severe ones are written, each to its own log; unknown names turn logging off, and with logging off nothing is written. The driver's results are the same at every level.",
 ["inputs", "configurations"], "all level names within the bound, any call at every level",
 "Tests run with one level and ignore what is logged.",
 ["log/log.go", "conn.go"], [("SetLevel and level checks", "log/log.go")], ["writes to the loggers"],
 "Texts of log lines are checked for the log package itself, not for what a session logs.")
prop("C27", "What is passed and returned is never shared",
 "The driver never changes the parameters, arguments, queries or values a caller passes, whether the call succeeds or fails, and parameters may be changed or reused as soon as the call returned. Rows, values, columns, metadata and encoded bytes it returned do not change when more is read, run or closed, and changing a returned row, value, encoded message or list of columns changes nothing that is read or sent later.",
 ["inputs", "histories"], "all kinds of values, every call that takes parameters or returns rows, success or failure",
 "Tests compare what is returned at once and never again; reused buffers and changed arguments show only later.",
 ["encoding/encoder.go", "encoding/decoder.go", "conn.go", "rows.go", "stmt.go", "util.go"],
 [("Encode, Decode", "encoding"), ("sendRun, NextNeo, Next, Columns", "conn.go, rows.go"), ("driverArgsToMap", "util.go")],
 ["values given and returned, compared again after later calls"],
 "Values of eight kinds with arbitrary strings and numbers; two to four rows.")

with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh",
 "checks": [{
   "property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
   "technique": "symbolic execution of the Go SSA of /repo with z3 deciding branches and assertions; counterexamples replayed natively",
   "level": "model_checking",
   "level_note": "Bounded: holds for all inputs, choices and schedules within the bounds of each harness (in evidence), nothing beyond. " + p["note"] + " Trusts the engine's SSA semantics (validated by native replay of sampled paths), its models of net, tls, time, fmt, log and sync, and z3.",
 } for p in P],
 "not_applicable": [],
 "notes": "One symbolic execution engine (engine/, Go) runs the harnesses (harness/src/verifh) against /repo's current source. No hooks in /repo. See DESIGN.md."}
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1)

import glob, re
H = {}
for f in sorted(glob.glob(root + "/harness/src/verifh/*/c*.go")) + sorted(glob.glob(root + "/harness/src/verifh/misc/*.go")):
    for l in open(f):
        m = re.match(r"// ((C\d\d)_\w+): (.*)", l)
        if m:
            H.setdefault(m.group(2), {})[m.group(1)] = m.group(3)
with open(root + "/HARNESSES.md", "w") as f:
    f.write("# Harnesses and their bounds\n\nWritten by tools/gen.py from the harnesses' comments. Bounds of the thorough tier in brackets.\n")
    for p in P:
        f.write("\n## %s %s\n\n" % (p["id"], p["title"]))
        for h in H[p["id"]]:
            f.write("- %s: %s\n" % (h, H[p["id"]][h]))
