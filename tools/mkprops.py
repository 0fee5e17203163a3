import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=s) for s in state],observe_at=obs,hook_needed=hook)))
pool="src/pool/mod.rs"; tr="src/io/transport.rs"; lib="src/lib.rs"; qr="src/types/query_result/stream_blocks.rs"
p("P01","A pool never owns more than pool_max connections",
 "At every instant the number of server connections a pool owns (lent to handles, idle, or being established) is at most the configured pool_max. This holds for any mix of concurrent acquisitions, handle drops, cancelled acquisitions, failed or broken connections and reconnects, on any number of threads.",
 ["schedules","histories","fault_sequences","configurations"],"all interleavings of pool operations by concurrent tasks/threads, all pool_min/pool_max settings, all connect/break outcomes",
 "Tests need a live server and sample one lucky schedule; the bound breaks only in particular windows between counting and reserving.",
 [pool,"src/pool/futures/get_handle.rs",tr],[("capacity check before opening a connection","Pool::poll / Inner::conn_count"),("return and release of connections","Pool::return_conn, Inner::release_conn, TransportStatus::drop")],
 ["new (connecting slot)","idle queue","ongoing counter"],["client-side sockets open towards the server","Debug output of Pool"])
p("P02","A pooled connection is lent to at most one handle at a time",
 "Two live handles never share a server connection: between a handle being given out and that handle being dropped, nobody else sends or receives anything on its connection. This holds for every interleaving of acquisitions, drops, cancellations and reconnects.",
 ["schedules","histories"],"all interleavings of acquire/use/drop/cancel by concurrent tasks",
 "A test observes only the connection it was given, on one schedule; sharing shows up only in specific histories.",
 [pool,lib],[("idle queue hand-out","Pool::take_conn"),("hand-back on drop","Drop for ClientHandle")],["idle queue","ClientHandle.inner"],["server-side record of which handle used which connection"])
p("P03","A waiting acquisition is never forgotten",
 "Whenever a pending request for a handle could be satisfied - because a connection was returned, a lent connection was closed, a connection attempt by another waiter succeeded or failed, or another waiter was cancelled - some pending requester is woken so that it makes progress. Consequently no request stays pending forever while the pool has an idle connection or free capacity, and a request whose connection attempt fails resolves to an error.",
 ["schedules","histories","fault_sequences"],"all interleavings of polls, wakeups, returns, releases, connect completions/failures and cancellations",
 "Lost wakeups need a precise interleaving or cancellation point and appear as a hang, which sampled tests do not reach.",
 [pool,"src/pool/futures/get_handle.rs"],[("waiter registration","Pool::poll (tasks queue)"),("waking of waiters","Pool::return_conn, Inner::release_conn, Pool::handle_futures")],["tasks queue of wakers","connecting slot","idle queue"],["completion of GetHandle futures","wake calls on supplied wakers"])
p("P04","Pool capacity is neither leaked nor over-credited",
 "Each handle occupies exactly one unit of pool capacity from the moment it is handed out until its connection is returned or closed, whatever happened to it in between (success, server exception, timeout, dropped stream or future, broken connection, reconnect). Once all handles are gone the pool reports no lent connections, and pool_max handles can be acquired simultaneously again.",
 ["histories","fault_sequences","schedules"],"all histories of operations and faults on handles, followed by dropping them",
 "Leaks accumulate only over particular fault histories; tests check a couple of single-step ones and need a live server.",
 [pool,tr,"src/retry_guard.rs"],[("ongoing counter","Pool::take_conn/return_conn, Inner::release_conn"),("inside flag on a transport","TransportStatus::drop, set_inside")],["ongoing counter","TransportStatus.inside"],["Debug output of Pool","number of handles that can be acquired"])
p("P05","Idle connections: at most pool_min kept, healthy reused, broken never",
 "When a handle is dropped its connection is kept for reuse only if it is healthy and fewer than pool_min connections are idle; otherwise the connection is closed. While an idle connection exists the next acquisition uses it instead of connecting again, and a connection on which an operation failed (server exception while reading a result, I/O error, protocol error) is never handed to a later caller.",
 ["histories","fault_sequences","configurations"],"all histories of operations with all outcomes, for all pool_min/pool_max",
 "Requires combining each failure kind with a later acquisition for each configuration; existing tests cover two server-dependent cases.",
 [pool,qr,lib],[("retention rule","Pool::return_conn"),("detach/attach markers","PoolBinding, BlockStream"),],["idle queue","PoolBinding"],["server-side connection identity of later requests","sockets that stay open"])
p("P06","Connection attempts rotate over all configured hosts",
 "A pool configured with a primary address and alternative hosts directs its successive connection attempts to these hosts in the configured order, cyclically, starting with the primary; a failed attempt also advances the rotation. So with n hosts any n consecutive attempts reach every host exactly once.",
 ["configurations","histories","fault_sequences"],"all host lists and all success/failure patterns of attempts",
 "The unit test looks at one list without connecting or failures.",
 [pool,"src/types/options.rs"],[("host cursor","Pool::get_addr"),("connection opening","Client::open")],["connections_num","hosts"],["which listening host receives each attempt"])
p("P07","Every answer belongs to the request that asked for it",
 "The rows, success or error that an operation returns come from the server's answer to that very operation, never from an earlier or concurrent one. This holds for any sequence of pings, queries, statements and inserts on pooled connections, including result streams dropped half-read and futures cancelled or timed out midway, with or without the check ping before each query.",
 ["histories","schedules","configurations"],"all operation sequences with abandonment at any point, on one or more handles",
 "Cross-talk needs a leftover answer from an abandoned operation; tests only run complete operations.",
 [lib,tr,qr],[("leftover draining","ClickhouseTransport::clear"),("abandon on drop","Drop for BlockStream"),("packet stream state machine","PacketStream::poll_next")],["inconsistent flag","rd buffer","cmds queue"],["values returned by operations versus tagged server answers"])
p("P08","A query yields exactly the rows the server sent, in order",
 "For every sequence of result blocks the server sends, collecting the query yields exactly those rows in order, and the block stream and the row stream yield the same rows. This does not depend on how the bytes are split into network reads, on how rows are split into blocks, on empty blocks, on interleaved progress or profile packets, or on compression.",
 ["inputs","schedules","configurations"],"all block sequences x byte segmentations x interleavings of informational packets x compression on/off",
 "Tests see the segmentation and block split of one server on one machine; resumption at an arbitrary byte is never exercised.",
 [tr,"src/binary/parser.rs",qr,"src/types/query_result/mod.rs","src/types/block/mod.rs"],[("incremental packet parsing","ClickhouseTransport::poll_next / try_parse_msg"),("block stream","BlockStream::poll_next"),("block concatenation","Block::concat")],["rd buffer","buf_is_incomplete"],["rows returned by fetch_all, stream_blocks, stream"])
p("P09","A damaged or cut-off response yields an error, never partial data",
 "If the server closes or resets the connection at any byte of a response, or sends bytes that are not a well-formed response, the pending operation ends with an error: it neither panics, nor hangs, nor reports success with missing rows. The pool stays usable and later operations on a healthy server succeed.",
 ["fault_sequences","inputs","histories"],"every cut position of every response kind (handshake, ping, query, statement, insert), and malformed packets",
 "Needs a faulty server with a fault at each byte; the test-suite has only a healthy server.",
 [lib,tr,qr,"src/binary/parser.rs"],[("end-of-stream handling","ClientHandle::hello/ping/execute_/insert_, PacketStream::read_block"),("parser error mapping","try_parse_msg")],["done flag","BlockStreamState"],["result of the operation","later operations"])
p("P10","Server exceptions reach the caller intact and do not spoil later work",
 "When the server answers any operation with an exception, at any point of its answer, the operation returns that exception with the same code, name, message and stack trace. Rows received before it are never presented as a complete result, and later operations through the pool - and, with the check ping on, through the same handle - behave as if it had not happened.",
 ["histories","inputs","fault_sequences"],"every operation kind x every position of the exception x any later operation x arbitrary exception text",
 "Tests only check that some error comes back from two statements on a live server.",
 [lib,qr,"src/binary/parser.rs","src/errors/mod.rs"],[("exception parsing","Parser::parse_exception"),("error propagation and recovery","BlockStream, execute_, insert_, check_connection")],["PoolBinding","ClientHandle.inner"],["returned error fields","outcome of later operations"])
p("P11","Statements are sent at most once and dead connections are replaced first",
 "With the check ping enabled, an operation on a handle whose connection died (closed, unresponsive or refusing) transparently moves to a working connection before the statement is sent, making at most send_retries further attempts and then reporting an error. In every case the statement text of one call is transmitted to servers at most once (one per chunk for oversized inserts), so it is never executed twice.",
 ["fault_sequences","histories","configurations"],"all sequences of connection failures before and during an operation, for all retry settings",
 "Requires connections dying at particular moments; tests have one stable server.",
 ["src/retry_guard.rs",lib],[("retry loop","retry_guard"),("pre-query check","ClientHandle::check_connection, wrap_future, wrap_stream")],["attempt counter","ClientHandle.inner"],["statements and connections seen by the server"])
p("P12","Every operation respects its configured timeout",
 "If the server stops answering, connecting, pinging, collecting a query's result, executing and inserting each end with a timeout error after their own configured limit and not before; a statement limit that is switched off never fires. A timed-out operation leaves no connection behind whose late answer could be taken for another operation's.",
 ["fault_sequences","histories","configurations"],"every operation kind x every stall position x timeout settings",
 "Needs a server that stalls at each step.",
 [lib,"src/types/query_result/mod.rs","src/types/options.rs"],[("timeouts","with_timeout in Client::open, ping, fetch_all, execute_, insert_")],["options timeouts"],["error kind and elapsed time","later results"])
p("P13","An insert delivers exactly the given rows or reports an error",
 "Inserting a block sends the server exactly the block's rows in order, its columns paired with the server's by position (a different number of columns is an error), split into consecutive pieces of bounded size, each followed by an end marker. The call reports success only after the server has confirmed every piece; if the server rejects or drops the connection at any point the call reports an error.",
 ["inputs","fault_sequences","histories"],"all blocks (column types, row counts around the piece size, empty blocks), all server column layouts and failure points",
 "Multi-piece inserts and failures between pieces are not tested; delivered bytes are never inspected.",
 [lib,"src/types/block/mod.rs","src/types/block/chunk_iterator.rs","src/types/column/chunk.rs"],[("insert sequence","ClientHandle::insert_/insert_tail_/insert_block_"),("slicing","Block::chunks, ColumnData::save(start,end)")],["chunk iterator"],["bytes received by the server decoded back to rows","returned result"])
p("P14","Handshake and query packets follow the server's protocol revision",
 "For every server revision from 54032 (client info) on, the client's hello carries the configured database, user and password, and each query packet is laid out as that revision expects and carries the exact statement text, query id, compression choice and all configured settings with their types and importance flags. A server that follows the protocol for its announced revision can therefore always decode it without loss, and the client decodes that revision's hello, progress and profile packets.",
 ["inputs","configurations"],"all server revisions across the feature thresholds x all settings/credential/statement texts",
 "Tests talk to one server version and never look at the packet.",
 ["src/types/cmd.rs","src/client_info.rs","src/binary/parser.rs","src/binary/encoder.rs","src/binary/uvarint.rs","src/types/query.rs"],[("command encoding","encode_hello, encode_query, serialize settings"),("revision-dependent parsing","Parser::parse_hello/parse_progress")],["server_info.revision"],["bytes received by the server"])
p("P15","Column data of every supported type is decoded to the values sent",
 "For every supported column type, including nested nullable, array, map and low-cardinality forms, and every sequence of values, the values a user reads from a received block are exactly the ones the server encoded, whichever way they are read (by cell, by row, by a typed column iterator where one is offered for the type). Boundary values, empty columns, nulls and arbitrary bytes in strings are included.",
 ["inputs"],"all type expressions (nesting) x all value sequences",
 "Tests sample a few values per type and mostly require a server.",
 ["src/types/column","src/types/from_sql.rs","src/types/value_ref.rs","src/types/block/mod.rs"],[("column loading","ColumnData load functions, column factory"),("cell access","ColumnData::at, FromSql"),("typed iterators","column/iter")],["column buffers"],["values from Block::get, rows, Column::iter"])
p("P16","Column data of every supported type is encoded as the values pushed",
 "For every supported column type and every sequence of values placed in a block, the bytes sent to the server decode, by the server's format rules, to exactly those values under the column's declared type; a form of column the client does not offer for sending is refused with an error. Reading a value back from a locally built block also returns what was put in.",
 ["inputs"],"all type expressions x all value sequences x construction routes (column vectors, row pushes, pieces of a block)",
 "Tests never decode sent bytes independently.",
 ["src/types/column","src/types/value.rs","src/types/marshal.rs","src/types/block/mod.rs","src/binary/encoder.rs"],[("column saving","ColumnData::save"),("value pushing","ColumnData::push, Value conversions")],["column buffers"],["bytes received by the server"])
p("P17","Insert-time conversion to the table's types keeps values or fails",
 "When the block's column type differs from the server's column type, the insert either delivers values equal in meaning to the given ones in the server's type, or fails with an error before any data is delivered. Digits finer than the server's scale or precision may be cut off; otherwise it never delivers a different value, a misaligned column or a type the server did not ask for.",
 ["inputs","configurations"],"all pairs of source and destination types x values, missing/reordered/extra columns",
 "Tests sample few pairs on a live server.",
 ["src/types/block/mod.rs","src/types/column/mod.rs"],[("column casts","Block::cast_to, Column::cast_to")],["cast tables"],["bytes received by the server","returned error"])
p("P18","Compressed blocks are checked and round-trip",
 "With compression on, every block the client sends is a sequence of frames whose checksums verify and whose contents decompress to exactly the uncompressed encoding. On receipt, valid frames of any split decode to the rows sent, and a frame with any altered byte in its checksum, header or body is rejected with an error instead of being decoded.",
 ["inputs","fault_sequences"],"all block contents and sizes, all frame splits, all single-byte corruptions",
 "Tests use a handful of fixed frames.",
 ["src/types/block/compressed.rs","src/types/block/mod.rs","clickhouse-rs-cityhash-sys/src"],[("frame reader","CompressedReader"),("frame writer","Block::send_data/serialize compressed"),("checksum","city_hash_128")],["frame buffer"],["bytes exchanged with the server","returned rows or error"])
p("P19","Column type names are understood exactly as the server means them",
 "Every type name of the supported grammar as the server spells it, at any nesting depth up to 64 and with its parameters, is parsed to the type it denotes, and the type's printed name denotes the same type again (a time zone of DateTime aside). Another spelling of it is parsed to the same type or refused. A name outside the supported grammar is refused with an error, never with a panic or as a different type.",
 ["inputs"],"all strings of the type grammar and near-misses",
 "The grammar is unbounded; tests list examples.",
 ["src/types/column/factory.rs","src/types/mod.rs"],[("type-name parser","column factory, parse_* functions"),("type-name printer","SqlType Display")],["none"],["column types reported for received blocks"])
p("P20","A block is always a rectangular table equal to what was put into it",
 "A block built by any sequence of row pushes, column additions, clones and concatenations holds exactly the rows put in, in order, with every column having the same length; a row or column that does not fit (missing, repeated or unknown cells, a value the column's type cannot hold, another number of rows) is refused, with an error where the call returns a result, and leaves the earlier contents unchanged. Concatenating blocks appends their rows in order, and changing a clone never affects the original.",
 ["inputs","histories"],"all sequences of construction operations over all value types",
 "Tests sample fixed short constructions.",
 ["src/types/block/mod.rs","src/types/block/builder.rs","src/types/column/concat.rs","src/types/column/chunk.rs"],[("row push","RowBuilder / put_param"),("concatenation","Block::concat, ConcatColumnData"),("copy on write","Column::push, clone_instance")],["columns","capacity"],["row_count, column_count, cells"])
p("P21","Reading a value as the wrong type or from a wrong place is an error",
 "Reading a cell or a column with a type that does not match the column's type, or a missing column name or an out-of-range index, returns an error: it never returns a reinterpreted value and never panics. (NULL, or an empty map, holds no value that could be reinterpreted and may also be read as NULL or empty with another inner type.) Reading a cell with the matching type always succeeds, and so does a typed iterator where one is offered for the type.",
 ["inputs","programs"],"all pairs of column type and requested type x access routes x positions",
 "The pair matrix is large; tests sample a few pairs.",
 ["src/types/from_sql.rs","src/types/column/iter/mod.rs","src/types/block/mod.rs","src/types/block/row.rs"],[("cell conversion","FromSql impls"),("typed iterator checks","Iterable impls"),("column lookup","ColumnIdx")],["none"],["result of Block::get, Row::get, Column::iter"])
p("P22","Connection strings mean what they say",
 "Every well-formed connection string yields options equal to setting each stated component explicitly, with documented defaults for everything left out, independently of parameter order; percent-encoded text is decoded and unknown parameters become server settings. A malformed string or value is refused with an error, never silently defaulted and never a panic.",
 ["inputs","configurations"],"all combinations of components, parameters, values and orders, and malformed variants",
 "Combinatorial space; tests check a few strings.",
 ["src/types/options.rs"],[("DSN parser","from_url, set_params, parse_* helpers")],["Options"],["Options compared with the builder-made equivalent"])
p("P23","Values keep content and type in every form and compare by meaning",
 "A cell's value taken as a ValueRef, made into an owned Value, viewed as a ValueRef again, cloned, or converted from or into the matching Rust type keeps its content and its type (a value does not know a FixedString's length, a LowCardinality dictionary or an aggregate function). Two values of one column type compare equal, in whichever of these forms each of them is, exactly if they denote the same value (floats as numbers, NaN being equal to nothing; maps in any order), and values that compare equal hash alike. A value never equals one of another type (except that decimals compare as numbers and DateTime64 as instants whatever their scales).",
 ["inputs"],"all supported types x pairs of values x forms",
 "Tests compare a few scalars of one form; a forgotten combination of type and form shows only for that combination.",
 ["src/types/value.rs","src/types/value_ref.rs","src/types/decimal.rs","src/types/enums.rs"],[("owned from borrowed","From<ValueRef> for Value"),("borrowed from owned","From<&Value> for ValueRef"),("equality and hashing","PartialEq and Hash of Value and ValueRef"),("type of a value","From<Value>/From<ValueRef> for SqlType")],["none"],["conversions, == and hash of Value and ValueRef"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
