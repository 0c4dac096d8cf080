#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe or [], "hook_needed": None}})

CONN = "protosocket-connection/src/connection.rs"
PROST = "protosocket-prost/src/prost_serializer.rs"
MSGP = "protosocket-messagepack/src/lib.rs"
REG = "protosocket-prost/src/prost_client_registry.rs"
PSRV = "protosocket-server/src/connection_server.rs"
RSRV = "protosocket-rpc/src/server/socket_server.rs"
RCS = "protosocket-rpc/src/server/connection_server.rs"
ABRT = "protosocket-rpc/src/server/abortable.rs"
SUBM = "protosocket-rpc/src/server/rpc_submitter.rs"
RCLI = "protosocket-rpc/src/client/rpc_client.rs"
CONF = "protosocket-rpc/src/client/configuration.rs"
REAC = "protosocket-rpc/src/client/reactor/completion_reactor.rs"
CREG = "protosocket-rpc/src/client/reactor/completion_registry.rs"
CUN = "protosocket-rpc/src/client/reactor/completion_unary.rs"
CST = "protosocket-rpc/src/client/reactor/completion_streaming.rs"
NOCONN = "No existing test opens a connection or reads or writes a socket: the connection crate has no tests at all, so "
POLL = "The 8 existing tests poll one future by hand on one thread over in-process channels with one or three messages and no socket, so "

prop("C01", "Messages arrive exactly once, in order and unaltered",
 "In each direction of a connection, the messages handed to the receiving application are at every instant a prefix of the messages the sending application got accepted, per sending task: none is lost from the middle, duplicated, reordered, merged, split or altered. This holds however the byte stream is cut into reads and writes, and for every queue limit, buffer limit and message size within the limits.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "every task interleaving, every fragmentation and short read/write, every EINTR/would-block pattern, every queue/buffer configuration, every message size up to the limit",
 NOCONN + "partial writes, batch boundaries, buffer rotation and buffer growth are never executed by them.",
 [CONN, PROST, MSGP],
 [("outbound batches are reversed and popped in acceptance order", CONN + " poll_serialize_outbound_messages"),
  ("partially written buffers are re-queued at the front", CONN + " rotate_send_buffers"),
  ("unconsumed tail of the receive buffer is kept and rotated", CONN + " read_inbound_messages_into_read_queue")],
 [("send_buffer", "encoded frames not fully written", CONN), ("receive_buffer[start..end]", "bytes read but not decoded", CONN)],
 ["the receiving reactor's on_inbound_messages", "mpsc::Sender::send on the sending side"])

prop("C02", "An open connection never stalls with work outstanding",
 "While both ends of a connection are up and the network keeps delivering, every message accepted for sending reaches the receiving application without any further stimulus: no extra message in either direction and no unrelated event is needed to get it moving. This includes resuming after the socket or the peer was blocked for any length of time.",
 ["schedules", "configurations", "fault_sequences"],
 "every interleaving of socket readiness, queue-full, buffer-full and task wake-ups, every stall and resume, every configuration",
 NOCONN + "no test depends on a waker: they re-poll by hand, so a lost wake-up cannot be seen.",
 [CONN, PROST, MSGP],
 [("wakers registered on socket readiness, outbound channel, or self-wake when progress was made", CONN + " poll_receive, poll_deserialize, poll_serialize_outbound_messages, poll_outbound")],
 [("send queue full", "outbound channel is not polled while full", CONN + " room_in_send_buffer"), ("receive buffer full", "socket is not polled while full", CONN + " poll_receive")],
 ["quiescence of the simulated system with undelivered messages"])

prop("C03", "An orderly close loses nothing that was accepted or received",
 "When an application drops its last outbound handle, every message it had accepted before is written to the peer before the connection closes. When a peer ends its sending side in an orderly way, every complete message it sent before that is delivered to the application before the connection ends.",
 ["schedules", "histories", "fault_sequences"],
 "every position of the close relative to reads, writes, batches and wake-ups; every fragmentation of the bytes before the close",
 NOCONN + "no test closes either side of a connection that has data in flight.",
 [CONN, REG],
 [("close of the outbound channel", CONN + " poll_serialize_outbound_messages / poll"), ("end of file on the socket", CONN + " read_from_stream / poll_receive / poll")],
 [], ["bytes read by the peer until end of file", "the reactor's deliveries before it is dropped"])

prop("C04", "Wire bytes are exactly the encoded messages, cut anywhere",
 "The bytes a connection puts on the wire are exactly the concatenation of its serializer's output for the accepted messages, in order, with nothing added, dropped or repeated, an empty encoding contributing nothing. The supplied protocol-buffers codec frames with a varint length and the supplied MessagePack codec with a 5-byte unsigned-32 length, and any concatenation of such frames decodes to the same messages wherever the bytes are cut.",
 ["inputs", "schedules", "fault_sequences"],
 "every message sequence, every way the transport splits writes and reads, for both supplied codecs and for custom ones",
 NOCONN + "neither codec has a test, and self-consistent changes to both ends would be invisible without an independent peer that speaks raw bytes.",
 [CONN, PROST, MSGP],
 [("length-delimited protobuf framing", PROST), ("u32-prefixed MessagePack framing, decoder remembers a parsed length", MSGP), ("vectored writes and partial-write bookkeeping", CONN + " writev_buffers, rotate_send_buffers")],
 [("decoder state", "length already parsed for the current frame", MSGP)],
 ["raw bytes read and written by a scripted peer that implements the framing independently"])

prop("C05", "Oversized or malformed input is contained; legal input is accepted",
 "If a peer's bytes announce a message beyond the configured limit or cannot be decoded, that connection ends without panicking, without delivering anything made from those bytes and without getting stuck half-open. A message whose encoding is within the limit is accepted wherever it falls in the stream and however it is fragmented, including skipped messages. An application message too large to send ends its connection without a byte of it reaching the wire.",
 ["inputs", "configurations", "fault_sequences", "schedules"],
 "every byte stream (garbage, lying or overflowing lengths, truncations), every limit, every fragmentation and alignment in the buffer",
 NOCONN + "no limit, no decoder error and no skip is exercised by any test.",
 [CONN, PROST, MSGP],
 [("limit check on announced sizes, rotation to make room, disconnect on invalid data", CONN + " read_inbound_messages_into_read_queue"), ("outbound size check", CONN + " poll_serialize_outbound_messages"), ("length parsing", PROST + ", " + MSGP)],
 [("max_buffer_length", "limit per direction", CONN)],
 ["scripted raw peer; the connection task's end; the reactor's deliveries"])

prop("C06", "A peer that does not read causes waiting, not unbounded buffering",
 "When the peer stops reading, the number of messages an endpoint accepts beyond what the network has taken stays below a small fixed multiple of its configured outbound queue limit, and further senders wait. The limits set on servers, client registries and client configurations are the ones in force on the connections they create afterwards, and once the peer reads again everything that was accepted or waiting is delivered.",
 ["schedules", "configurations", "fault_sequences"],
 "every queue limit, every stall and resume pattern, every number of concurrent senders, on plain connections and on rpc clients and servers",
 POLL + "none of them reaches a full queue in front of a blocked socket.",
 [CONN, RCS, CONF, REG, PSRV, RSRV],
 [("bounded outbound channel plus bounded send queue", CONN + " room_in_send_buffer"), ("server reserves outbound capacity before taking the next response", RCS + " poll_advance_unary_rpcs, poll_advance_streaming_rpcs")],
 [("send_buffer", "bounded by the queue limit", CONN)],
 ["count of accepted sends versus bytes the simulated socket took; polls of rpc response sources"])

prop("C07", "Connection, reactor and outbound handles share one fate",
 "When a connection ends for any reason (peer close, transport error, the reactor asking to disconnect, the last outbound handle dropped and its messages written, its task dropped), its socket is closed, its reactor is dropped exactly once and every outbound handle reports closed, all within a bounded number of steps and with nothing delivered to the reactor afterwards. A connection does not end without such a reason.",
 ["schedules", "crash_points", "fault_sequences"],
 "every reason for ending, at every point of the traffic, under every interleaving with senders",
 NOCONN + "no test ends a connection.",
 [CONN, "protosocket-connection/src/types.rs", SUBM, PSRV],
 [("the connection future owns stream, reactor and outbound receiver and completes on every terminal condition", CONN + " poll")],
 [], ["drop of the reactor, end of file/reset at the peer, Sender::is_closed/closed()"])

prop("C08", "Every unary call gets its own response, exactly once",
 "While the connection stays up, each unary call that is not dropped resolves exactly once, with the response the server produced for that very request, whatever the number of concurrent calls, clones of the client, connections, response order, batching and back-pressure. No call ever observes another call's response.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "every interleaving of callers, connection tasks and server tasks on several threads, every response order and delay, bursts larger than every internal batch size",
 POLL + "client and server are never connected to each other and nothing runs concurrently.",
 [RCLI, REAC, CREG, CUN, RCS, SUBM, RSRV],
 [("completion is registered before the request is queued", RCLI + " send_message"), ("completions are looked up by message id", REAC), ("responses are sent for each finished rpc future", RCS + " poll_advance_unary_rpcs")],
 [("in-flight completions", "shared submission map plus reactor-owned map", CREG)],
 ["UnaryCompletion's result versus the request, in a simulated client/server system"])

prop("C09", "Streaming calls deliver every item in order, then end once",
 "While the connection stays up, a streaming call that is not dropped yields exactly the items the server's stream produced for it, in order, each once, then reports the end exactly once and nothing after, independent of other calls, consumer speed, batching and back-pressure. A stream that reports a normal end has delivered everything the server produced.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "every interleaving, every consumer speed, stream lengths around and beyond every internal batch size, concurrent streams and unary calls, slow sockets",
 POLL + "stream order is only checked for three two-item streams inside one server object.",
 [CST, REAC, CREG, RCS, ABRT],
 [("per-stream FIFO channel filled in arrival order", REAC), ("batched receive, reversed and popped", CST), ("stream items forwarded one at a time, then an end message", RCS + " poll_advance_streaming_rpcs")],
 [], ["items yielded by StreamingCompletion versus items produced by the service"])

prop("C10", "Dropping a call cancels that call on the server, and only that call",
 "When a client drops an unfinished unary or streaming call that it had sent, the server drops the corresponding work within a bounded number of steps, as long as the client's side keeps reading, and sends nothing further for it, while every other call on the connection is unaffected. A call that already finished is never reported to the server as cancelled.",
 ["schedules", "crash_points", "histories"],
 "every point at which a call can be dropped: while queueing, before the request left, while running, between stream items, with the response in flight; every interleaving",
 POLL + "cancellation is checked for a single hanging rpc at one point, and never end to end.",
 [CREG, CUN, CST, RCS, ABRT],
 [("drop guard sends a cancel message unless the call is finished", CREG + " CompletionGuard::drop"), ("server aborts by id", RCS + " handle_message_buffer"), ("abort wakes the rpc", ABRT)],
 [("aborts", "abort handle per in-flight rpc id", RCS)],
 ["drop of the service's future/stream; messages on the wire; other calls' results"])

prop("C11", "Losing a connection resolves every call and releases the server side",
 "When a connection ends for any reason, every call outstanding on it resolves with an error or an already received response within a bounded number of steps, later calls fail with a closed-connection error, and the client reports itself not alive; no call hangs. The server drops that connection's service and all of its unfinished work.",
 ["crash_points", "schedules", "fault_sequences"],
 "every instant at which either side, the network or the connection task can go away relative to registering, queueing, sending and receiving",
 POLL + "no test ever closes a connection.",
 [RCLI, REAC, CREG, CUN, CST, RCS, SUBM, RSRV],
 [("dropping the reactor drops all completions and clears the alive flag", REAC + " Drop"), ("server loop ends when its inbound channel closes", RCS + " poll_receive_buffer")],
 [("is_alive", "connection liveness flag shared with clients", REAC)],
 ["completion results, is_alive(), drop of ConnectionService and rpc futures"])

prop("C12", "One connection's failure never reaches the server or other connections",
 "A server keeps accepting and serving whatever happens to individual connections: resets, hostile bytes, aborted handshakes, failed socket options, failed accepts, peers that never read, and panics in one connection's service. Calls and messages on other connections complete normally, and nothing sent on one connection is ever observed on another.",
 ["fault_sequences", "schedules", "histories"],
 "every combination and timing of per-connection failures while other connections are active or being opened",
 NOCONN + "no test binds a listener.",
 [RSRV, PSRV, RCS, SUBM],
 [("accept loop continues on errors and spawns one task set per connection", RSRV + " poll, " + PSRV + " poll")],
 [], ["well-behaved clients' results while others are faulted"])

prop("C13", "Calls on one connection do not block each other",
 "An rpc that is slow, never completes, streams without end or is not being read by its caller does not prevent other rpcs on the same connection from being started, completed and cancelled. As long as the peer keeps reading from the socket, each other call finishes in a bounded number of steps after its own work is done.",
 ["schedules", "histories", "configurations"],
 "every mix of hanging, slow, endless and quick calls, every interleaving, every queue limit",
 POLL + "at most three identical rpcs run together and none of them is slow.",
 [RCS, REAC, CST],
 [("unary and streaming rpcs are polled concurrently", RCS + " poll"), ("unbounded per-stream client channel", REAC)],
 [], ["completion of quick calls while slow ones are outstanding"])

prop("C14", "Stray, late, duplicate and unknown control messages are harmless",
 "Responses, ends and cancels for ids that are not in flight, duplicates, cancels that cross with completion, and end messages sent by a client have no effect on any call in flight and do not end the connection. An unknown control code is treated as a cancel of that id.",
 ["inputs", "histories", "schedules"],
 "every sequence of well-formed but unexpected messages in either direction, interleaved with normal traffic",
 POLL + "no unexpected message is ever fed to the client reactor or the server.",
 [REAC, CREG, RCS, "protosocket-rpc/src/message.rs"],
 [("unregistered ids are ignored", REAC), ("unknown ids are ignored on cancel", RCS + " handle_message_buffer"), ("code mapping", "protosocket-rpc/src/message.rs")],
 [], ["results of concurrent normal calls; liveness of the connection"])

prop("C15", "Finished calls and sent messages leave nothing behind",
 "Memory held by a long-lived connection, client or server does not grow with the number of calls completed, cancelled or failed, nor with the number of messages sent and received. After all traffic on a connection has settled, what it retains depends only on its configured limits and peak concurrency.",
 ["histories", "schedules"],
 "every long history of completed, cancelled, dropped, late and streamed calls",
 POLL + "no history is longer than three calls, and nothing measures retained state.",
 [CREG, REAC, RCS, CONN],
 [("finished marks and removal from the in-flight maps", CREG + " take_new_rpc_lifecycle_actions"), ("abort handles removed on completion", RCS), ("buffer recycling", CONN + " rotate_send_buffers")],
 [("in_flight", "client completions", CREG), ("aborts", "server abort handles", RCS)],
 ["live heap bytes of the simulated process at quiescent points of a long run"])

prop("C16", "When there is nothing to do, nothing runs",
 "Once every accepted message is delivered and no call has work to do, connections, clients and servers become idle: their tasks are not polled again until an external event arrives. The number of polls spent per unit of work is bounded, whether the peer is idle, blocked, slow or trickling bytes.",
 ["schedules", "configurations", "fault_sequences"],
 "every end state of traffic: empty, blocked peer, half-received message, hanging calls; every configuration",
 "Tests poll by hand and never observe whether a task asks to be polled again.",
 [CONN, RCS, RSRV, PSRV],
 [("self-wakes only after progress", CONN + " poll_deserialize, poll_serialize_outbound_messages"), ("pending on channels and sockets otherwise", RCS + " poll")],
 [], ["quiescence of the scheduler; number of polls per delivered message"])

prop("C17", "A finished call's id can be used again at once",
 "A client may reuse a message id as soon as the previous call with it has finished and been dropped: the new call behaves as any other, whatever late bookkeeping of the previous one is still going on in client or server.",
 ["histories", "schedules"],
 "every interleaving of the end of one call with the start of the next under the same id, for unary and streaming calls, under back-pressure",
 POLL + "no test uses an id twice.",
 [CREG, REAC, RCS, ABRT],
 [("finished marks are overwritten by a new registration", CREG), ("abort handle bookkeeping by id", RCS)],
 [("aborts", "abort handle per id", RCS)],
 ["results of consecutive calls under one id"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
