#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
T="src/types/"; C=T+"column/"
p("C01","Inserted rows reach the server exactly",
 "When an insert of a block succeeds, the server has received an INSERT for the named table listing the block's column names in order, followed by data whose column names, column types, row count and every cell value equal the block's, whatever the supported column types, nesting, values and row count. Turning compression on or off, and the way the block was built (row by row or column by column), makes no difference to the rows received.",
 ["inputs","configurations"],"all blocks over the supported column types (scalars, strings, dates, IPs, UUID, decimals, enums, Nullable, Array, Map and nestings), all cell values, column names, compression on/off, built by rows or by columns",
 "The unit tests encode a handful of hand-written blocks of one type; mis-encoding shows up only for particular values (signs, lengths >127, extreme numbers, empty arrays, NULLs) or nestings, and the integration tests need a live server.",
 ["src/lib.rs",T+"block/mod.rs",C+"*.rs","src/binary/encoder.rs","src/binary/uvarint.rs",T+"cmd.rs",T+"marshal.rs"],
 [("insert pipeline","src/lib.rs ClientHandle::insert/insert_/insert_block_"),("block encoder",T+"block/mod.rs Block::write/send_data"),("column save","src/types/column/*.rs ColumnData::save"),("INSERT text","src/lib.rs make_query, column_name_to_string")],
 ["bytes received by a scripted server on loopback"])
p("C02","Insert converts to the table's column types without changing values",
 "When the table's declared column type differs from the block's but the client accepts the conversion (text or bytes to fixed-length text, byte arrays to text, text to IPv4/IPv6, decimal to another scale or precision, enums to the table's enum, timestamps to DateTime or DateTime64 of any precision, any dictionary-encodable type to LowCardinality, anything to a SimpleAggregateFunction over it, nullable and array forms of these), the server receives the declared type with each value meaning the same (text padded with zero bytes or cut to the fixed length, decimals rescaled, enums keeping their number, the rest re-encoded as that type requires). A column with no conversion, a wrong number of columns, text that is not a valid address, or a decimal that does not fit the declared storage width makes the insert fail with an error and no data rows are sent.",
 ["inputs"],"all (block column type, declared column type) pairs the client supports, all values representable in the declared type, plus pairs it does not support",
 "Existing tests exercise one value per conversion and most need a server; conversion errors are value dependent (sign, scale difference, padding, repeated dictionary values, >255 distinct values, pre-epoch fractions).",
 [C+"mod.rs",C+"fixed_string.rs",C+"decimal.rs",C+"enums.rs",C+"chrono_datetime.rs",C+"low_cardinality.rs",C+"string.rs",C+"simple_agg_func.rs",C+"nullable.rs",C+"array.rs",C+"map.rs",T+"block/mod.rs"],
 [("column conversion",C+"mod.rs Column::cast_to"),("adapters",C+"{fixed_string,decimal,enums,string,chrono_datetime}.rs save"),("dictionary building",C+"low_cardinality.rs push/save")])
p("C03","Large inserts are split without loss, duplication or reordering",
 "An insert of a block of any size delivers every row exactly once and in order, as a sequence of self-contained INSERT statements, each with the columns, settings and query id of the insert, whose data blocks each hold at most 1,048,576 rows and decode on their own to the matching slice of the block. This holds for every supported column type, including variable-length, array, map, nullable and dictionary columns, and for row counts just below, at and above multiples of the limit.",
 ["inputs"],"all blocks (row count from 0 to several limits, any supported column types and conversions)",
 "Tests never build a block above the limit; slicing errors only appear in the second and later pieces and only for some column types.",
 ["src/lib.rs",T+"block/chunk_iterator.rs",C+"chunk.rs",C+"array.rs",C+"map.rs",C+"string.rs",C+"string_pool.rs",C+"nullable.rs",C+"low_cardinality.rs"],
 [("splitting",T+"block/chunk_iterator.rs, src/lib.rs insert_/insert_tail_"),("sliced save",C+"chunk.rs ChunkColumnData::save and every ColumnData::save(start,end)")])
p("C04","Query results decode to exactly what the server sent",
 "For every result set of supported column types, the names, types, row count and each cell value obtained by cell access and by row access equal what the server encoded, whether the server compresses the blocks or not and whichever accepted spelling of a type name it uses. A result with an unsupported type is reported as an error.",
 ["inputs","configurations"],"all result blocks over supported types and nestings, all cell values, all accepted type-name spellings, server time zones, compression on/off",
 "Unit tests decode a few fixed byte strings; the decoder has a separate path per type and nesting, with value-dependent branches, and the remaining tests need a live server.",
 [C+"factory.rs",C+"*.rs",T+"block/mod.rs",T+"block/row.rs","src/binary/parser.rs","src/binary/read_ex.rs",T+"unmarshal.rs",T+"from_sql.rs",T+"value_ref.rs"],
 [("block decoder",T+"block/mod.rs Block::load"),("type dispatch",C+"factory.rs load_data"),("cell access",T+"block/mod.rs Block::get, "+T+"block/row.rs Row::get, "+T+"from_sql.rs")])
p("C05","Typed column iteration agrees with cell access",
 "Iterating a column of a fetched result with a matching Rust element type yields exactly one item per row, in row order, equal to what cell access returns for that row, for every supported element type (including nullable, array, map, dictionary and date/time elements), for single blocks and for results assembled from many blocks. Iterating again, cloning the block or skipping items yields the same items.",
 ["inputs"],"all columns (types, values, row counts, block partitions) and all matching element types",
 "The iterators walk raw memory of the column with per-type layouts; the tests iterate a few small columns of one block, so an off-by-one, a wrong stride or a mis-set offset for nested or concatenated columns goes unseen.",
 [C+"iter/mod.rs",C+"concat.rs",C+"list.rs",C+"string_pool.rs",C+"nullable.rs",C+"array.rs",C+"map.rs",C+"low_cardinality.rs",C+"date.rs"],
 [("iterators",C+"iter/mod.rs"),("raw column access","ColumnData::get_internal/get_internals in "+C+"*.rs"),("concatenated columns",C+"concat.rs")])
p("C06","Every way of reading a result returns the same rows",
 "For every partition of a result into blocks (any sizes, empty blocks anywhere, any interleaved progress, profile, totals-free notices), collecting everything at once, streaming rows and streaming blocks return the same rows in the order the server sent them, none lost and none repeated. A query returning no rows yields an empty result of the right columns when collected.",
 ["inputs","histories"],"all sequences of server result packets for a query: any number and size of blocks, any interleaving of progress/profile packets",
 "Tests read results of one or two blocks from a live server; boundary behaviour at block edges, with empty blocks, and in concatenated columns needs many partitions.",
 [T+"query_result/mod.rs",T+"query_result/stream_blocks.rs",T+"block/mod.rs",T+"block/row.rs",C+"concat.rs"],
 [("collect",T+"query_result/mod.rs fetch_all, "+T+"block/mod.rs Block::concat"),("stream",T+"query_result/stream_blocks.rs BlockStream"),("chunk lookup",C+"concat.rs find_chunk")])
p("C07","Results do not depend on how the network splits the bytes",
 "For any way of cutting the server's byte stream into network segments, with any pauses between them, every operation (connecting, pinging, executing, inserting, collecting, streaming) ends with the same outcome as when all bytes arrive at once. Likewise a slow server that drains the client's bytes in small amounts receives exactly the same bytes.",
 ["schedules","inputs"],"all segmentations of the server byte stream and of the client's sends, compressed and not",
 "A live server or an in-memory cursor delivers whole packets; only particular cut points inside a packet, a length or a frame trigger the resume logic.",
 ["src/io/transport.rs","src/io/read_to_end.rs","src/io/stream.rs","src/binary/parser.rs",T+"block/compressed.rs"],
 [("incremental parsing","src/io/transport.rs try_parse_msg/wr flush"),("frame reading",T+"block/compressed.rs")])
p("C08","Compressed blocks are valid frames and corruption is always detected",
 "Every compressed block the client sends is a well-formed LZ4 frame with the correct 128-bit checksum that any conforming reader expands to the exact block, and every well-formed frame a conforming server may send (any LZ4 encoding of the data, any number of frames per block) is read correctly. If any bit of a received frame's checksum, header or payload is altered, the operation reports an error and never returns data.",
 ["inputs","fault_sequences"],"all blocks, all valid LZ4 encodings and frame splits, all single and multiple byte corruptions of a frame",
 "One fixed frame is tested; corruption detection and hash correctness depend on the length class of the input and on which byte is hit.",
 [T+"block/compressed.rs",T+"block/mod.rs","clickhouse-rs-cityhash-sys/src"],
 [("frame reader",T+"block/compressed.rs"),("frame writer",T+"block/mod.rs Block::write"),("checksum","clickhouse-rs-cityhash-sys/src/cc/city.cc")])
p("C09","Fetched blocks can be inserted back unchanged",
 "A block obtained from a query, of any supported column types, can be inserted into a table with the same column types, and the server then receives exactly the values it had sent, bit for bit. The same holds for a block assembled from columns of fetched blocks and for a block that was cloned.",
 ["inputs"],"all result blocks over the supported types and nestings",
 "No test sends a received block back; it composes every decoder with every encoder.",
 [C+"*.rs",T+"block/mod.rs","src/lib.rs"],
 [("column save of loaded data",C+"*.rs save"),("type comparison",C+"mod.rs Column::cast_to")])
p("C10","A query never sees data or errors of earlier operations",
 "Whatever happened earlier on a connection or pool (result streams dropped after any number of blocks or rows, operations cancelled, timed out or failed, server exceptions, lost connections), every later operation that reports success returns only its own answer: a query returns exactly its own rows, an insert delivers exactly its own rows, and an exception is reported only by the operation that caused it. A connection whose state is unknown is drained or replaced, never reused as if it were clean.",
 ["histories","schedules","fault_sequences"],"all histories of operations over one or several handles of a pool, with early drops, cancellations, exceptions and disconnections at any point",
 "Needs specific multi-step histories (abandon, return, reuse) against a server that keeps sending; the only related tests need a live server and one fixed history.",
 ["src/lib.rs","src/io/transport.rs","src/pool/mod.rs",T+"query_result/stream_blocks.rs","src/retry_guard.rs"],
 [("cleanup of an abandoned response","src/io/transport.rs clear, set_inside"),("stream drop",T+"query_result/stream_blocks.rs Drop"),("return to pool","src/pool/mod.rs return_conn, ClientHandle Drop")])
p("C11","The pool bounds its connections and never loses capacity",
 "At no time does a pool hold more open connections than its configured maximum, two holders never share a connection, and idle connections kept for reuse never exceed the configured limits. After any history of acquiring, using, dropping, cancelling and failing, once every handle is released the pool can again hand out its maximum number of connections, and every waiting request is served when capacity becomes free.",
 ["histories","schedules","fault_sequences"],"all interleavings of acquire, cancel, use, drop, failed connects and broken connections for all minimum/maximum settings",
 "Unit tests use a live server and a single history; leaks and lost wake-ups need particular interleavings and failures at particular points.",
 ["src/pool/mod.rs","src/pool/futures/get_handle.rs","src/lib.rs","src/io/transport.rs"],
 [("accounting","src/pool/mod.rs Pool::poll, take_conn, return_conn, release_conn"),("waiters","src/pool/mod.rs tasks queue, wake")],
 ["connections open at a scripted server","pool debug counters"])
p("C12","Server exceptions are reported faithfully by every operation",
 "When the server answers any operation with an exception at any point of its response, that operation returns a server error carrying exactly the code, name, message and stack trace sent, and rows received before it are not presented as a complete result. The pool then remains usable: the next operation succeeds.",
 ["inputs","histories","fault_sequences"],"all operations, all positions of the exception in the response, all exception contents",
 "Tests check one exception from a live server at one position.",
 ["src/binary/parser.rs","src/lib.rs",T+"query_result/stream_blocks.rs",T+"query_result/mod.rs","src/errors/mod.rs"],
 [("exception parsing","src/binary/parser.rs parse_exception"),("propagation","src/lib.rs hello/ping/execute_/insert_, src/types/query_result")])
p("C13","A lost connection is an error, never a short result",
 "If the server closes or resets the connection after any byte of its response to any operation, the operation returns an error: it does not report success, does not return a truncated result as complete, does not panic and does not hang. The pool stays usable: an operation on a fresh handle succeeds once the server accepts connections again.",
 ["crash_points","fault_sequences","inputs"],"all operations, all byte positions at which the connection is cut",
 "Each cut position exercises a different state of the reader; tests never close the connection mid-response.",
 ["src/lib.rs","src/io/transport.rs",T+"query_result/stream_blocks.rs",T+"query_result/mod.rs","src/pool/mod.rs"],
 [("end-of-stream handling","src/io/transport.rs, src/types/query_result/stream_blocks.rs"),("handshake and execute loops","src/lib.rs")])
p("C14","Malformed server data is rejected without crashing",
 "Whatever bytes a server sends in reply to any operation (corrupted lengths, counts, type names, offsets, dictionary indexes, text, packet codes), the operation finishes with an error or with a result that can be read in full: there is no panic, crash, out-of-bounds access or allocation out of proportion to the bytes received.",
 ["inputs"],"all byte strings as server replies, in particular single and multiple mutations of valid replies",
 "The space of malformed inputs is unbounded; tests contain a few malformed enum names.",
 ["src/binary/parser.rs","src/binary/read_ex.rs","src/binary/uvarint.rs",C+"factory.rs",C+"*.rs",T+"block/compressed.rs"],
 [("parsers","src/binary/*.rs, "+C+"factory.rs, load() of every column")])
p("C15","Connection URLs mean exactly what they say",
 "For every connection URL made of documented parts, the resulting behaviour is that of the same options set one by one: host, port (9000 if absent), user, password and database as written (with percent-encoding undone), each documented parameter with its documented format and default, and every other parameter passed as a server setting. A URL with an unknown scheme or an unparsable parameter value is rejected with an error naming it, never silently ignored.",
 ["inputs","configurations"],"all URLs over the documented grammar, and near-miss invalid ones",
 "Tests parse about ten fixed URLs; escaping, repeated parameters, defaults and combinations are unbounded.",
 [T+"options.rs","README.md"],
 [("URL parsing",T+"options.rs from_url, set_params, parse_*"),("builder",T+"options.rs property macro")])
p("C16","The server is told exactly what the user configured",
 "For every configuration and every server protocol revision, the handshake carries the configured database, user and password, and each query packet carries exactly the user's SQL text, query id, settings (names, values, importance) and compression flag in the layout that revision requires, followed by the end-of-data marker, with nothing left over. The server's name, version and time zone from its greeting are used for all later decoding.",
 ["inputs","configurations"],"all option values, SQL texts, ids and settings, all server revisions",
 "Tests compare two fixed encodings; layout switches on revision thresholds and typed settings need the whole range.",
 [T+"cmd.rs","src/client_info.rs",T+"options.rs","src/binary/parser.rs","src/binary/protocol.rs","src/lib.rs"],
 [("packet encoding",T+"cmd.rs encode_hello/encode_query"),("settings encoding",T+"cmd.rs, "+T+"options.rs SettingValue"),("greeting","src/binary/parser.rs parse_hello")])
p("C17","A block built in memory holds exactly what was put in",
 "For every sequence of pushed rows and added columns, the block's rows, columns, names, types and cells are those that were put in, in order; a row that names an unknown column, misses a column or names one twice is rejected with an error and leaves the block as it was. Cloning a block yields an independent equal block: pushing to either leaves the other unchanged, and blocks compare equal exactly when their columns, in order, hold the same types and values (column names are not compared).",
 ["histories","inputs"],"all sequences of push, add-column, clone and compare over all value types",
 "Tests build a few blocks; aliasing after clone and per-type push paths need histories over every type.",
 [T+"block/builder.rs",T+"block/mod.rs",T+"block/row.rs",C+"*.rs",T+"value.rs",T+"value_ref.rs"],
 [("push",T+"block/builder.rs put_param, ColumnData::push"),("copy on write",C+"mod.rs Column::push, clone_instance"),("equality",C+"mod.rs PartialEq, "+T+"value_ref.rs PartialEq")])
p("C18","Decimals are exact",
 "A decimal built from a number and a scale, from its integer representation, or received from the server denotes exactly the corresponding decimal number: its text form, scale changes, comparisons, integer and floating forms all agree with exact decimal arithmetic, for positive and negative values alike, and invalid precision or scale is rejected rather than mis-stored.",
 ["inputs"],"all decimals with precision up to 18 and scale up to the precision, all sources",
 "Tests check six values; sign, leading zeros and scale differences interact.",
 [T+"decimal.rs",C+"decimal.rs"],
 [("arithmetic",T+"decimal.rs"),("column",C+"decimal.rs")])
p("C19","Dates and times keep their instant through every path",
 "A date, a DateTime or a DateTime64 of any precision and any time zone, inserted or fetched, denotes the same calendar day or instant on both sides, through every way of building (zoned or UTC timestamps, plain dates, raw values), sending and reading (cell access, iteration as zoned or naive values), and is presented in the column's time zone, or the server's if the column names none.",
 ["inputs","configurations"],"all values in the types' ranges, all precisions 0-9, all time zones for server and column",
 "Tests use a few dates in one or two zones; errors appear at day boundaries, negative offsets, pre-epoch fractions and particular precisions.",
 [C+"date.rs",C+"datetime64.rs",C+"chrono_datetime.rs",C+"iter/mod.rs",T+"date_converter.rs",T+"value.rs",T+"from_sql.rs"],
 [("conversions",C+"datetime64.rs to_datetime/from_datetime"),("iterators",C+"iter/mod.rs"),("zones",C+"factory.rs get_timezone")])
p("C20","Reconnection and failover deliver an operation to a live server",
 "With connection checking on, an operation on a handle whose connection has died is retried on a new connection up to the configured number of attempts and succeeds if any attempt reaches a working server; when all attempts fail it returns an error after at most the configured attempts. Connections are opened to the main and alternative hosts in rotation, so every listed host is tried and no other.",
 ["fault_sequences","histories","configurations"],"all sequences of server availability over all hosts, all retry settings",
 "Needs servers that fail at chosen moments; tests need a live server and check one reconnect.",
 ["src/retry_guard.rs","src/lib.rs","src/pool/mod.rs","src/connecting_stream.rs"],
 [("retry loop","src/retry_guard.rs"),("host rotation","src/pool/mod.rs get_addr"),("connection check","src/lib.rs check_connection")])
p("C21","Configured time limits are enforced and only those",
 "If the server stops responding, each operation ends with a timeout error within its own configured limit (connection, ping, query, insert, execute) plus a small margin, and an operation whose server answers within the limit never times out. An unset limit means no limit. After an attempt to reconnect has failed, the next one follows after the configured retry delay.",
 ["schedules","configurations"],"all operations, all limit settings, all stall positions",
 "Tests never stall a server; which limit applies to which operation depends on the code path.",
 ["src/lib.rs",T+"options.rs",T+"query_result/mod.rs","src/connecting_stream.rs","src/retry_guard.rs"],
 [("with_timeout","src/lib.rs"),("stream timeout",T+"query_result/mod.rs")])
p("C22","Reading with the wrong type is an error, never garbage",
 "Requesting a cell, or iterating a column, with a Rust type that does not match the column's type returns an error and never a reinterpreted value, a panic or an out-of-bounds read; with a matching type it succeeds. Asking for a column name that does not exist returns an error.",
 ["inputs"],"all (column type, requested Rust type) pairs, all blocks",
 "Tests check two mismatches of roughly 30 x 40 pairs.",
 [T+"from_sql.rs",C+"iter/mod.rs",T+"block/mod.rs",T+"block/row.rs"],
 [("cell conversion",T+"from_sql.rs"),("iterator type checks",C+"iter/mod.rs Iterable::iter")])
p("C23","Values convert losslessly and compare consistently",
 "Converting a Rust value of any supported type into a client value and back, or borrowing and re-owning it, returns the original, and its SQL type and text form are those of the value. Equality on values is reflexive and symmetric and agrees with the equality of what they hold, and equal values have equal hashes so that maps keyed by them behave.",
 ["inputs"],"all Rust values of supported types, all pairs of values",
 "Tests sample random numbers per scalar type, not containers, pairs or laws.",
 [T+"value.rs",T+"value_ref.rs",T+"enums.rs",T+"decimal.rs"],
 [("conversions",T+"value.rs From impls, "+T+"value_ref.rs From impls"),("laws",T+"value.rs PartialEq/Hash, "+T+"value_ref.rs PartialEq/Hash")])
p("C24","Secure connections are encrypted, verified and carry the same data",
 "With the TLS feature and the `secure` option on, nothing but TLS is sent. A connection is used only after the server's certificate has been verified against the system's authorities and the configured certificate, for the very host connected to (unless `skip_verify` is set); no credentials, queries or data are sent before that or in readable form, and there is no fallback to an unencrypted connection. With `secure` off the connection is plain. Over a secure connection every operation gives the same results and errors as over a plain one.",
 ["inputs","configurations","fault_sequences"],"all certificates, trust settings and hosts, all operations and data, all record boundaries and cuts of the encrypted stream",
 "The existing TLS test only parses a URL; verification, host names per alternative host and record boundaries need a TLS server and generated certificates.",
 ["src/connecting_stream.rs","src/io/stream.rs",T+"options.rs"],
 [("TLS set-up","src/connecting_stream.rs new_tls_connection"),("stream","src/io/stream.rs Stream::Secure"),("options",T+"options.rs secure, skip_verify, Certificate")])
p("C25","The async-std build keeps the same guarantees",
 "Built with the `async_std` feature instead of `tokio_io`, every operation gives the same results and the same errors: rows and inserts are exact for every segmentation of the network stream, server exceptions keep their code, name, message and stack trace, a lost connection is an error, the configured time limits end an operation with a timeout error and none ends it early, and the pool never loses capacity.",
 ["inputs","schedules","fault_sequences","configurations"],"all operations, data, segmentations, faults and limits under the other runtime",
 "No test in the repository is run with this feature without a live server.",
 ["src/lib.rs","src/io/stream.rs","src/connecting_stream.rs","src/retry_guard.rs","src/errors/mod.rs"],
 [("time limits","src/lib.rs with_timeout"),("socket adapter","src/io/stream.rs"),("retry delay","src/retry_guard.rs")])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
