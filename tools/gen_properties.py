#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the records stay consistent)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "Every call gets the response to its own request",
 "A call that returns a response returns the one its peer produced for that very request, no matter how many other calls of the same or of other clients are outstanding, in which order the responses arrive, or how the fragments of several messages interleave on a connection. On the serving side, every response is sent on the connection, and under the message id, on which its request arrived, even if several connections use the same ids at the same time.",
 ["schedules","histories"], "all task interleavings (bounded preemptions) of 2-4 concurrent calls over 1-2 connections; all response orders and all interleavings of response fragments",
 "tests run sequential calls, or parallel calls whose completion order the runtime happens to pick; nothing forces a response order, a fragment interleaving or a preemption",
 ["src/connection/mod.rs","src/server.rs","src/defragmentation.rs","src/subchannel.rs"],
 [("frames are routed by message id to the waiting call","connection/mod.rs FramesDispatcher"),("per-connection server state","server.rs Server::new / handle_connection"),("fresh id per call","connection/mod.rs Connection::next_message_id")],
 ["result of SubChannel::send","frames a raw peer receives"],
 [("senders","message id -> channel of the waiting call","connection/mod.rs FramesDispatcher")],
 "AtomicU32 in connection/mod.rs as a scheduling point")

prop("C02", "Messages arrive exactly as sent, whatever their size",
 "A request reaches the handler, and its response reaches the caller, with every argument byte for byte equal to what was sent: raw and JSON messages alike, for empty arguments, for every size including those where an argument or its length ends at or next to a frame boundary, and for messages of many frames. This holds for every frame buffer size and for every way the transport splits the byte stream.",
 ["inputs","configurations"], "all argument sizes in windows around every frame boundary alignment (arg1 x arg2 x arg3), both directions, raw and JSON, multi-frame messages, buffer sizes, stream segmentations",
 "tests use a handful of sizes; only sizes that leave exactly 0, 1, 2.. bytes of a frame exercise the boundary cases",
 ["src/fragmentation.rs","src/defragmentation.rs","src/frames/mod.rs","src/frames/payloads.rs","src/messages/raw.rs","src/messages/json.rs"],
 [("arguments split over frames","fragmentation.rs Fragmenter"),("arguments joined","defragmentation.rs ArgsDefragmenter"),("stream to frames","frames/mod.rs TFrameIdCodec")],
 ["message seen by the handler","message returned by send"])

prop("C03", "Everything put on the wire conforms to the protocol",
 "Every frame the client or the server writes is well formed according to the TChannel protocol: correct size (never above the frame limit), type and reserved bytes, message id of its request, payload fields in the specified layout, one to three arguments per frame, checksum type none, the arg scheme header set to the scheme of the message. The frames of one message are one initial frame followed only by continuation frames of the matching direction, in order, with the more-fragments flag on all but the last, and reassemble, by the protocol's rules alone, to exactly the arguments of the message.",
 ["inputs","schedules"], "all argument sizes in windows around frame boundaries, both directions, judged by an independent codec; all bounded interleavings of concurrent senders",
 "both ends of the tests are this library, so a symmetric deviation from the protocol passes every test",
 ["src/fragmentation.rs","src/frames/mod.rs","src/frames/payloads.rs","src/connection/mod.rs"],
 [("frame layout","frames/mod.rs TFrameIdCodec, frames/payloads.rs"),("fragment flags and types","fragmentation.rs Fragmenter")],
 ["bytes received by a raw peer"])

prop("C04", "Any valid encoding of a message by a peer is understood",
 "A peer may encode a message in any way the protocol allows and is understood: any split of the arguments into frames (empty chunks, arguments ending exactly at a frame's end, one-byte chunks, frames of any size), any additional headers, any time-to-live and tracing values, with its frames interleaved with those of other messages, and delivered by the transport in segments of any size (checksums are not supported). The handler (for a request) and the caller (for a response) then get exactly the arguments the peer encoded.",
 ["inputs"], "all fragmentations of small messages (all chunkings of the three arguments into frames, with and without empty continuation chunks), all two-cut segmentations of the byte stream, interleavings of two fragmented messages",
 "tests only ever decode what this library itself encoded",
 ["src/defragmentation.rs","src/frames/mod.rs","src/frames/payloads.rs"],
 [("joining of argument chunks","defragmentation.rs ArgsDefragmenter"),("incremental frame decoding","frames/mod.rs Decoder")],
 ["message seen by the handler","result of send with a raw peer"])

prop("C05", "Calls always complete: no deadlock, no lost wake-up",
 "With live peers and handlers that finish, every call completes, for every number of concurrent calls and message sizes and for every configuration (any pool size, any frame buffer size from 1, any number of server tasks). In particular interleaved multi-frame requests on one connection never block each other, whatever the order in which their frames arrive and however slowly the transport accepts data. Nor does it matter how much time, below the time-to-live of the request, a handler or a peer takes, or passes between calls.",
 ["schedules","configurations"], "all bounded interleavings x {frame_buffer_size, server_tasks, max_connections} x {1-frame, multi-frame} x {number of calls}; frame arrival orders",
 "a deadlock needs a particular configuration or frame arrival order; tests use the default configuration with messages that fit the buffers",
 ["src/server.rs","src/connection/mod.rs","src/connection/pool.rs","src/subchannel.rs"],
 [("bounded channels between reader, calls and writer","connection/mod.rs"),("concurrency limit","server.rs handle_connection"),("pool","connection/pool.rs")],
 ["completion of every send"], None, "AtomicU32 in connection/mod.rs as a scheduling point")

prop("C06", "Losing a connection fails its pending calls, never fakes success",
 "When the connection of a pending call is closed or reset, at whatever byte of the exchange, the call returns promptly (without waiting for a timeout): with an error, unless its complete response had already been received. A response of which only a part arrived is never returned as a success.",
 ["crash_points","fault_sequences"], "every cut position (byte) of the reply stream and of the request stream, close and reset, single and several pending calls, at every scheduling point within the preemption bound",
 "no test closes a connection during a call",
 ["src/connection/mod.rs","src/defragmentation.rs","src/subchannel.rs"],
 [("end of stream closes the channels of waiting calls","connection/mod.rs FrameReceiver"),("incomplete message is an error","defragmentation.rs read_continuation")],
 ["result of send and virtual time it took"])

prop("C07", "Clients recover after a lost connection or a server restart",
 "Once a connection is known to be lost, it is not used for new calls: calls started after that go over a fresh connection and succeed if the peer is reachable (after an outage, the first one may have to wait for the pool's next attempt to connect), for every pool size. An unreachable peer makes calls fail with an error, and calls to other peers, or later calls to the same peer when it has come up, succeed.",
 ["fault_sequences","histories"], "all sequences of {call, connection closed by peer, server restart, peer unreachable} up to a depth, pool sizes 1-2",
 "no test lets a connection die and calls again",
 ["src/connection/pool.rs","src/connection/mod.rs","src/subchannel.rs"],
 [("broken connections are dropped from the pool","connection/pool.rs ManageConnection"),("pool per address","connection/pool.rs ConnectionPools")],
 ["result of send","connections accepted by the peer"])

prop("C08", "An unservable request is answered with an error and harms nobody else",
 "A request that the server cannot serve (unknown service, unknown endpoint, missing or wrong arg scheme, undecodable arguments, a handler that returns an error) is answered with an error under its own id. The connection stays usable: all other calls on it, whether already in flight or sent later, complete as if the failing request had not been sent.",
 ["schedules","inputs","histories"], "all orders and bounded interleavings of a failing request of each kind with good requests in flight or following",
 "the only negative tests send a single failing request on its own connection",
 ["src/server.rs","src/subchannel.rs","src/handler.rs"],
 [("error frames","server.rs FrameHandler::to_error_frame"),("per request error handling","server.rs FrameHandler::handle")],
 ["result of the failing and of the other sends","frames a raw peer receives"])

prop("C09", "The caller learns exactly what the handler decided",
 "If the handler returns a message, the call returns exactly that message as a success; if it returns an error message, the call returns exactly that message as a message error. If the handler returns another error, or does not exist, the call returns an error that is neither a success nor a message error. The same holds for synchronous and asynchronous handlers, raw and JSON, and on the wire the response code tells success from error.",
 ["inputs","configurations"], "{sync, async} x {raw, JSON} x all handler outcomes x single and multi frame answers",
 "tests check only a few outcomes",
 ["src/handler.rs","src/subchannel.rs","src/server.rs","src/fragmentation.rs"],
 [("mapping of handler results to response codes","handler.rs convert"),("mapping of response codes to results","subchannel.rs send")],
 ["result of send","response code a raw peer receives"])

prop("C10", "Handlers run exactly once per request and never concurrently",
 "On a connection that stays open, every completely received request is passed to the handler registered for its service and endpoint exactly once, and to no other handler; a request that was only partly received is never passed to a handler. Invocations of one and the same handler never overlap, even if its requests arrive concurrently on several connections.",
 ["schedules","crash_points"], "all bounded interleavings of 2-3 concurrent requests over 1-2 connections; every cut position of a multi-frame request",
 "overlap needs a particular interleaving with a handler suspended in the middle; tests count nothing",
 ["src/subchannel.rs","src/server.rs","src/defragmentation.rs","src/handler.rs"],
 [("handler mutex","subchannel.rs HandlerRef"),("lookup by service and endpoint","server.rs get_subchannel, subchannel.rs get_handler")],
 ["handler invocations, start and end"])

prop("C11", "No bytes from a client can hurt the server",
 "Whatever bytes a client sends, at any point of a connection, the server neither panics nor stops: it keeps serving all other connections, present and new. Malformed content inside a well delimited frame is at worst answered by an error or by closing that connection.",
 ["inputs","fault_sequences"], "every single-byte mutation (all 256 values at structural positions, a boundary set elsewhere) and every truncation of handshake and call frames, all frame types in all phases, followed by a probe call on another connection",
 "no test sends malformed data",
 ["src/frames/payloads.rs","src/frames/mod.rs","src/server.rs","src/defragmentation.rs"],
 [("checked decoding","frames/payloads.rs"),("connection task isolation","server.rs Server::run")],
 ["panics of any task","probe call on another connection"])

prop("C12", "No bytes from a server can hurt the client",
 "Whatever bytes a server answers, at any point of a connection, the client neither panics nor hangs once the connection ends: the calls concerned return, with an error unless the answer is a valid response, and calls to other peers are not affected.",
 ["inputs","fault_sequences"], "every single-byte mutation and every truncation of handshake and response frames, all frame types as response, with and without the connection closing",
 "no test sends malformed data",
 ["src/frames/payloads.rs","src/frames/mod.rs","src/connection/mod.rs","src/connection/pool.rs","src/defragmentation.rs"],
 [("checked decoding","frames/payloads.rs"),("handshake verification","connection/pool.rs")],
 ["panics of any task","result of send"])

prop("C13", "The handshake comes first and is verified on both sides",
 "On every connection the client's first frame is an init request of protocol version 2, and it sends no call before it has received a valid init response of the same version; otherwise the call fails with an error. The server answers an init request of version 2 with an init response of version 2 under the same id before anything else, and serves no call on a connection that did not start with such a request.",
 ["inputs","schedules"], "all frame types and all boundary versions as first frame in both directions, error frames, early close, delayed init response",
 "tests only see successful handshakes between this client and this server",
 ["src/connection/pool.rs","src/server.rs"],
 [("client handshake","connection/pool.rs verify"),("server handshake","server.rs handle_init_handshake")],
 ["frames a raw peer sees","result of send","handler invocations"])

prop("C14", "One subchannel per service name",
 "Looking up a service name always yields the same subchannel, even if several tasks ask for it for the first time at the same moment, so that no registered handler is ever lost. Different names yield different subchannels whose handlers are separate: a request for one service never reaches a handler of another service or of another channel.",
 ["schedules","histories"], "all bounded interleavings of concurrent lookups and registrations of equal and different names; all call targets",
 "the race window between the lookup and the insertion is not forced by any test",
 ["src/channel.rs","src/subchannel.rs","src/server.rs"],
 [("double checked creation","channel.rs subchannel/create_subchannel")],
 ["identity of the returned subchannels","which handler answers"])

prop("C15", "Handler registration is atomic and takes effect at once",
 "Registering a handler for an endpoint succeeds if and only if the endpoint has none, so that of concurrent registrations exactly one succeeds and the others fail without effect; unregistering succeeds if and only if it has one. Every call that starts after a registration or unregistration has returned observes its effect, and calls already running are not disturbed; an unregistered handler is dropped once its running calls are done.",
 ["schedules","histories"], "all operation sequences over {register a, register b, unregister, call} up to a depth on two endpoints, and all bounded interleavings of concurrent ones, judged by linearizability",
 "tests register distinct endpoints once, in sequence",
 ["src/subchannel.rs"],
 [("handler map","subchannel.rs handlers")],
 ["results of register/unregister and of calls"])

prop("C16", "The server starts once, stops when told and can start again",
 "Starting a running server fails and leaves it running, of concurrent starts exactly one succeeds, and stopping a stopped server is harmless. After a stop, or after the channel is dropped, no new connection is accepted and the address becomes free; a start after a stop serves calls again, even if it follows immediately. A failing accept does not end the server.",
 ["histories","schedules","fault_sequences"], "all sequences of {start, stop, drop, call} up to a depth with all bounded interleavings, accept errors of every kind at every position",
 "one test starts and stops once; the order in which the runtime releases the old listener is not controlled",
 ["src/channel.rs","src/server.rs"],
 [("server handle","channel.rs start_server/shutdown_server/Drop"),("accept loop","server.rs Server::run")],
 ["results of start/stop","result of connecting and calling","bound addresses"], None, "std Mutex in channel.rs as a scheduling point")

prop("C17", "Connections are pooled within the configured limits",
 "A client never has more open connections to one peer than the configured maximum (not counting retired ones that finish their last calls), connections to different peers are separate, and a connection is reused by later calls and shared by concurrent ones. A connection that has outlived its configured lifetime is replaced for later calls (at the next of the pool's half-minute checks), while the calls in flight on it still complete with their own responses, whereupon it is closed.",
 ["schedules","configurations","histories"], "max_connections in {1,2,3} x concurrent calls x two peers with all bounded interleavings; lifetimes with calls before, across and after expiry",
 "tests never count connections nor let time pass",
 ["src/connection/pool.rs","src/connection/mod.rs"],
 [("pool per address","connection/pool.rs ConnectionPools"),("pool configuration","connection/pool.rs create_pool")],
 ["connections accepted by a raw peer over time"])

prop("C18", "Outstanding calls on a connection have distinct ids",
 "At no time do two outstanding calls on one connection use the same message id, and every frame of a call carries its id; also after very many calls, and when the id counter wraps around. Ids of finished calls leave nothing behind: their number does not limit how many calls a connection can carry.",
 ["schedules","histories"], "all bounded interleavings of 2-3 concurrent id allocations, ids near the wrap-around, long sequential histories over one connection (client and server side)",
 "the tests make few calls and never look at ids",
 ["src/connection/mod.rs","src/server.rs"],
 [("id counter","connection/mod.rs next_message_id"),("registration of ids","connection/mod.rs FramesDispatcher::register")],
 ["ids a raw peer receives"],
 [("next_message_id","next id to use","connection/mod.rs Connection")],
 "AtomicU32 in connection/mod.rs as a scheduling point, with a settable start value")

prop("C19", "Abandoning a call is harmless",
 "A caller may drop a pending call at any moment. All other calls, on the same connection or not, complete normally, and later calls succeed: the response to the abandoned call, if it still arrives, is ignored and reaches no other call.",
 ["crash_points","schedules"], "dropping the call future at every one of its suspension points, single and multi frame requests, with other calls in flight, within the preemption bound",
 "no test drops a call",
 ["src/subchannel.rs","src/connection/mod.rs","src/connection/pool.rs"],
 [("late responses are dropped","connection/mod.rs dispatch_following"),("receiver of a dropped call is closed","connection/mod.rs")],
 ["results of the other sends"])

prop("C20", "Pings are answered and tested connections work",
 "The server answers every ping request with a ping response under the same id, at any time after the handshake, also while calls are in flight or multi-frame requests are being received, and goes on serving the connection. A client configured to test its connections completes its calls with any peer that answers pings, and replaces a connection whose peer does not answer the ping properly.",
 ["schedules","configurations","histories"], "ping at every position of call sequences and between the frames of a request; test_connection on x histories of calls; ping answered wrongly",
 "no test enables connection testing or sends a ping",
 ["src/connection/pool.rs","src/server.rs"],
 [("ping","connection/pool.rs is_valid"),("ping handling","server.rs")],
 ["frames a raw peer receives","result of send"])

prop("C21", "Unexpected frames do not disturb other calls",
 "A frame that belongs to no outstanding call (a response to an unknown, abandoned or already answered id, a duplicate, a stray continuation, error, cancel, claim or ping frame), received by the client, is ignored: every outstanding and later call completes with its own response. A protocol violation concerning one call fails at most that call.",
 ["inputs","histories","schedules"], "every frame type x {unknown id, finished id, pending id of another call} at every position of a two call history, within the preemption bound",
 "the tests' peers never misbehave",
 ["src/connection/mod.rs","src/defragmentation.rs"],
 [("unknown ids are reported and skipped","connection/mod.rs FrameReceiver")],
 ["results of sends"])

prop("C22", "The configured number of server tasks bounds concurrent handling",
 "On one connection the server handles at most the configured number of requests at the same time (no bound if it is zero), and requests to different handlers are really handled concurrently up to that number. Requests above the limit wait and are all served eventually, and handlers running on one connection do not delay other connections.",
 ["schedules","configurations"], "server_tasks in {0,1,2,3} x up to 4 requests to distinct handlers that block until released, all release orders, 1-2 connections",
 "no test observes handler concurrency",
 ["src/server.rs","src/config.rs"],
 [("concurrency limit","server.rs handle_connection")],
 ["number of simultaneously running handlers"])

prop("C23", "Ended connections and dropped channels leave nothing behind",
 "When a connection ends, for whatever reason and at whatever stage (closed, half closed or reset by the peer, a broken or missing handshake, a malformed frame, in the middle of a message or of handling a request), the side that notices closes it too and ends every task it ran for it, once requests being handled have finished. When a client channel and its subchannels are dropped, its connections are closed at both ends as soon as no call is outstanding on them, and no task of the client or of the peer's connections stays. Failed attempts to connect leave neither connections nor tasks. A dropped server drops its handlers.",
 ["histories","crash_points","schedules"], "histories of calls (answered, failing, many frames, abandoned, connection lost) before dropping the client; every kind of end of a connection at every stage of the exchange; failed connection attempts; many of each; within the preemption bound",
 "no test looks at what remains after a connection has ended; leaks show only in the number of open sockets and tasks",
 ["src/connection/mod.rs","src/connection/pool.rs","src/server.rs","src/channel.rs","src/subchannel.rs"],
 [("the sending task ends with its last sender","connection/mod.rs FrameSender"),("the receiving task ends with the stream","connection/mod.rs FrameReceiver"),("per-connection tasks","server.rs handle_connection"),("dropping a pool closes its connections","connection/pool.rs")],
 ["open ends of connections","live tasks","destructors of handlers"])

prop("C24", "A panicking handler is contained",
 "A handler that panics, synchronously or after having been suspended, harms at most the connection its request arrived on: the call gets an error and never a success or nothing, the other calls on that connection get their own response or an error, calls over other connections are not affected, even those waiting for the same handler, and the server keeps accepting connections. Later calls of the same and of all other handlers succeed, no registration or server task is lost, and nothing is left behind.",
 ["histories","schedules"], "handlers that panic at once or after a suspension, synchronous or not, raw or JSON x all histories of panicking and normal calls up to a length, panics while other calls wait for the same handler, a server task or another handler on the same and on other connections, with all schedules within the bound",
 "no test has a handler that panics; what is lost (a poisoned lock, a permit, the accept loop) shows only in later or concurrent calls",
 ["src/server.rs","src/subchannel.rs","src/handler.rs"],
 [("a task per connection","server.rs Server::run"),("locks that are not poisoned","subchannel.rs HandlerRef"),("permits are released on unwinding","server.rs FrameHandler::handle")],
 ["results of sends","frames a raw peer receives","live tasks and open connections"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
