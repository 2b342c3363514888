#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["bytes and handler calls at the public Server/LspService/Client API"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

T, S, L, C = "src/transport.rs", "src/service.rs", "src/service/layers.rs", "src/codec.rs"
SP, CP, CL, SO, PR = "src/service/pending.rs", "src/service/client/pending.rs", "src/service/client.rs", "src/service/client/socket.rs", "src/service/client/progress.rs"
R, RQ, RS, ST, M, J, LIB = "src/jsonrpc/router.rs", "src/jsonrpc/request.rs", "src/jsonrpc/response.rs", "src/service/state.rs", "tower-lsp-macros/src/lib.rs", "src/jsonrpc.rs", "src/lib.rs"

p("C01", "Input framing does not depend on how the byte stream is fragmented",
  "Given a sequence of well-formed framed messages, the server acts on exactly those messages, in order, however the bytes are split into reads, and acts on each one once its last byte has arrived without needing any later byte. Header order, an optional Content-Type header with charset utf-8 or utf8, multi-byte characters split across reads, and zero-length frames between messages make no difference. A frame that the end of input cuts short is never acted on.",
  ["inputs", "schedules", "fault_sequences"], "every message sequence, every split of its bytes into reads (down to single bytes), every interleaving of reads with handler progress, every point at which the input can end",
  "Unit tests decode a few fixed buffers; they never vary chunk boundaries together with server progress, and never check promptness.",
  [C, T], [("length-prefixed incremental decoder keeping content_len between calls", C), ("read loop over FramedRead", T)])
p("C02", "Output is always a clean, promptly flushed stream of whole frames",
  "Everything the server writes is a concatenation of complete frames, each a Content-Length header giving the exact byte length of the JSON message that follows, whatever short writes, stalls and pauses the output exhibits: frames are never interleaved, torn, duplicated or left out. Whenever the output accepts data, every message produced so far becomes visible to the client, flushed, without any further traffic being needed.",
  ["inputs", "schedules", "fault_sequences"], "every message content (including multi-byte text), every pattern of short, pending and delayed writes and flushes on the output, every interleaving of responses with server-to-client requests and notifications",
  "Tests write one or two messages into a Vec, which never blocks, never shortens a write and needs no flush.",
  [C, T], [("encoder computing Content-Length from the byte length", C), ("stream::select of responses and client requests forwarded into FramedWrite", T)])
p("C03", "Every request gets exactly one response with its id; notifications get none",
  "For every request (a message with a method and an id) received before exit, the client gets exactly one response carrying an id equal in type and value to the request's, whatever the handler does and in whatever order handlers finish. Notifications never produce a response. The server never sends a response that answers no received request, other than a null-id error for malformed input.",
  ["schedules", "inputs", "histories"], "every mix of requests and notifications (known, unknown, invalid, custom methods; integer, string and null ids), every completion order, every interleaving with cancellations and server-to-client traffic",
  "Tests send one request at a time; exactly-once over arbitrary completion orders and mixes is a property of histories.",
  [S, R, L, SP, T], [("id threaded through router, layers and IntoResponse", R), ("buffer_unordered + forward into responses channel", T)])
p("C04", "Messages are routed to the right handler with the right params and result",
  "Every LSP method, and every registered custom method, invokes exactly its own handler exactly once with the parameters that were sent, and the response carries exactly the value or error that invocation returned. An unknown method with an id is answered -32601, missing, unexpected or undeserializable params -32602, a request for a notification-only method -32600, none of them running a handler; unknown or invalid notifications, and request methods sent without an id, are ignored. Methods the server leaves to their default implementation behave like unknown ones once it is initialized, and a server wrapped in Arc or Box behaves like the server itself. None of this depends on how a message is spelled: the order of its JSON members, whitespace, escapes, members the protocol does not define and the header's exact form make no difference.",
  ["inputs", "schedules", "histories"], "all LSP methods and custom methods of every arity, valid and invalid params, any number in flight concurrently with any completion order",
  "Tests route a handful of mock methods one at a time; cross-talk between concurrent invocations and the full method table are never exercised.",
  [R, M, LIB, S], [("generated registration of every #[rpc(name)] method", M), ("Router::call and FromParams/IntoResponse", R)])
p("C05", "The concurrency limit is respected, fully used, and 1 means sequential",
  "At most the configured number of message handlers (4 unless concurrency_level says otherwise) is in progress at any moment. Whenever fewer are in progress and a received message is waiting for its handler, that handler starts without waiting for anything else, provided the output is not blocked. With a level of 1, each handler finishes before the next one starts.",
  ["schedules", "configurations", "histories"], "every concurrency level from 1 upward, every message mix and every order in which handlers block and finish",
  "No existing test starts two handlers at once or sets a concurrency level.",
  [T], [("buffer_unordered(max_concurrency) over the task queue", T)])
p("C06", "Handlers start in the order their messages were received",
  "The handlers of received messages, requests and notifications alike, begin executing in exactly the order in which those messages arrived, at every concurrency level. In particular no message overtakes an earlier document change notification.",
  ["schedules", "histories"], "every message mix, concurrency level and interleaving of arrivals with handler progress",
  "Tests never have more than one message outstanding.",
  [T, S], [("FIFO task queue feeding buffer_unordered", T)])
p("C07", "Cancellation answers the cancelled request once and touches nothing else",
  "When the client cancels a request that is still in progress or queued, its handler is dropped and never resumes, and it is answered exactly once with error -32800: at once if it is in progress, even if its handler would never finish and all handler slots are taken, and without its handler running if it is still queued. Cancelling an id that is unknown, not used yet, already answered or already cancelled has no effect, not even on a later request that uses that id. No other request's outcome is affected by a cancellation.",
  ["schedules", "histories"], "every point at which a cancel can arrive relative to the target's start, suspension, completion and response, integer and string ids, repeated and bogus cancels, cancel racing with completion on another thread",
  "One unit test aborts a never-ending future directly; the races between cancel, completion and other requests are schedules no test reaches.",
  [SP, M, L], [("abort handle per pending id, removed on completion", SP), ("$/cancelRequest route", M)])
p("C08", "Before initialization succeeds, requests are refused and handlers never run",
  "Until an initialize request has been answered successfully, every other request for a registered method is answered with error -32002, every notification other than exit and $/cancelRequest is dropped, and no handler but initialize runs. A failed or cancelled initialize leaves the server uninitialized and able to be initialized again. Once initialize succeeds, later messages are handled normally.",
  ["histories", "schedules"], "every message sequence around initialization, including messages pipelined behind a slow, failing or cancelled initialize",
  "One test covers initialize twice in sequence; nothing covers messages arriving while initialize is running or after it failed.",
  [L, ST, S], [("Normal and Shutdown layers gate on ServerState", L)], [("ServerState", "lifecycle stage", ST)])
p("C09", "Initialize succeeds at most once, even when requests are pipelined",
  "At most one initialize request per connection is ever answered successfully, and at no time do two initialize handlers run. An initialize request that arrives while another one is running, or after one succeeded, is answered with error -32600 without running the handler, however quickly it follows.",
  ["schedules", "histories"], "every number and timing of duplicate initialize requests, including while an earlier one is running, failing or being cancelled",
  "The existing test awaits the first response before sending the second request, so it cannot see the race.",
  [L, ST], [("Initialize layer state transition", L)], [("ServerState", "Uninitialized/Initializing/Initialized", ST)])
p("C10", "After shutdown is accepted every further request is refused",
  "From the moment the server receives a shutdown request it accepts, every later request for a registered method, including another shutdown or initialize, is answered with error -32600, no handler runs for any later message, and this never reverts. Requests already in progress still complete and are answered normally, and the shutdown handler runs exactly once.",
  ["histories", "schedules"], "every message sequence around shutdown, with any number of requests in flight, whatever the shutdown handler does (slow, failing, cancelled)",
  "The existing test covers only sequential shutdown twice.",
  [L, ST], [("Shutdown layer sets the state when called; Normal layer refuses", L)], [("ServerState", "ShutDown", ST)])
p("C11", "Exit stops the server at once and for good",
  "Once an exit notification is received, no later message is acted on and the service refuses every further call with ExitedError, permanently. Every request whose handler had not finished is dropped and answered with error -32800, or not at all if the output ends. Server-to-client traffic ends: the request stream terminates and later client requests made by remaining code fail instead of waiting forever.",
  ["histories", "schedules"], "exit at every point of every session: before, during and after initialization, after shutdown, with handlers queued, running, or waiting on the client",
  "The existing test sends exit to an idle service; nothing checks exit with work in flight, or exit racing with initialize.",
  [L, S, ST, SO, CL], [("Exit layer sets Exited, cancels pending, closes client", L)], [("ServerState", "Exited", ST)])
p("C12", "The server drains and finishes when input ends or exit is received",
  "When the input ends, the server runs every message it received to completion, delivers every resulting response, and every message those handlers send to the client before they return, and then serve() returns; handlers waiting for a client reply that can no longer arrive get an error instead of hanging. After an exit notification, serve() returns as soon as the remaining work is done, without needing any further input. It never returns earlier than that while the output works.",
  ["schedules", "fault_sequences", "crash_points", "histories"], "end of input or exit at every point of every session, with any handlers queued or running, any server-to-client traffic pending, and any output stalls",
  "Transport tests run one message with an immediately ready handler to end of input.",
  [T, CL, CP, SO], [("join of reader, task processor and writer with channel disconnects", T)])
p("C13", "I/O faults never panic, hang or corrupt the session",
  "A read error or a truncated input ends the session like an end of input, and a write error, zero-length write or flush error ends the output; in neither case does the server panic, and once output has failed serve() returns no later than when the input ends. Bytes written before a fault are still a prefix of a valid frame stream. Messages received before an input fault are treated exactly as without it.",
  ["fault_sequences", "crash_points", "schedules"], "every kind of I/O failure at every byte position of either stream, at every point of the session, with handlers queued, running, or waiting on the client",
  "Tests use in-memory buffers that never fail.",
  [T, C], [("sink error mapping and channel sends in serve()", T)])
p("C14", "Client request results reach the code that asked, exactly once and typed",
  "Each request the server sends through Client goes out once with its own method and params, and resolves with the result or error of the client's response bearing its id, whatever order responses arrive in and however many requests are in flight. A result that does not fit the expected type resolves to an error with code -32700, and an error response resolves to exactly that error. Requests issued in different handlers or tasks never receive each other's responses.",
  ["schedules", "histories", "inputs"], "all Client request methods, any number in flight, every response order, any result or error value, reissued from any handler or spawned task",
  "Tests only check the wire form of four notifications and FIFO routing in the pending map.",
  [CL, CP, SO], [("pending map keyed by id with oneshot senders", CP), ("Client::call registers the waiter before sending", CL)])
p("C15", "Stray, duplicate, late or malformed client responses are harmless",
  "A response with an unknown, null or already answered id, a duplicate response, or a response to a request whose issuing handler has been cancelled in the meantime, is ignored: the server neither panics nor stops, and no other pending request is affected. Messages that follow are processed as if it had not been sent.",
  ["histories", "schedules", "inputs"], "every stray response at every point of every session, including responses racing with cancellation of the handler waiting for them",
  "No test sends an unexpected response or cancels a handler that waits for the client.",
  [CP, SO, T], [("Pending::insert ignores unmatched ids", CP)])
p("C16", "Client traffic is gated by the server lifecycle",
  "Before the server is initialized and after exit, client requests made by the server fail at once with error -32002 and client notifications and progress are silently dropped, and nothing is written; from successful initialization until exit they are sent, including after shutdown. Exempt are log_message, show_message, show_message_request and telemetry_event, which are sent even before initialization; after exit they too send nothing and do not wait.",
  ["histories", "schedules"], "every Client method called at every lifecycle stage, from handlers and from independently spawned tasks",
  "Existing tests force the Initialized state and check four notifications.",
  [CL, ST, PR], [("send_request/send_notification check ServerState", CL)], [("ServerState", "lifecycle stage", ST)])
p("C17", "Server-to-client messages arrive exactly once, in each sender's order",
  "While the connection is up, each notification or progress message that a handler or task sends through Client is delivered exactly once with its own method and content, and those sent one after another by the same task arrive in that order. The send completes even while handlers, responses and other tasks compete for a slow output.",
  ["schedules", "histories", "fault_sequences"], "any number of concurrent senders and message kinds, every interleaving with responses, every output stall pattern",
  "Tests send a single notification into an idle channel.",
  [CL, PR, SO, T], [("bounded channel from Client clones to the request stream", CL), ("stream::select in serve()", T)])
p("C18", "Malformed input is answered with a null-id error and the session continues",
  "A correctly framed body that is not UTF-8 or not JSON gets exactly one error response with a null id and code -32700, and one that is JSON but not a JSON-RPC message gets exactly one with code -32600. (A request object that has no method counts as a request for an unknown method and is answered accordingly.) A damaged header section (bad or missing Content-Length, unsupported charset, junk lines) gets at least one null-id -32700 error. In every case well-formed frames that follow the damage are still processed, and nothing before it is affected.",
  ["inputs", "schedules", "fault_sequences"], "every kind of malformed frame at every position of a session, with every fragmentation, combined with any traffic in flight",
  "One codec unit test recovers from one parse error by calling the decoder directly; the running server is only tested with a single malformed message followed by end of input.",
  [C, T], [("resynchronisation on Content-Length after header errors", C), ("decode error branch of the read loop", T)])
p("C19", "Clients and in-flight calls can be shared freely across threads",
  "Client handles cloned into any number of threads never issue the same request id twice, never lose, duplicate or mix up requests, replies or notifications, and never deadlock, however the threads interleave. Call futures of one service may be polled, cancelled and dropped on different threads with every request still answered exactly once.",
  ["schedules"], "every interleaving of the threads' atomic operations (including those inside locks, channels and maps), with cancellation, shutdown and exit racing against completion, and id counters advanced past every power of two up to 2^17",
  "Tests are single-threaded (current_thread) throughout.",
  [CL, CP, SP, ST, L], [("atomic request id counter, sharded maps, atomic state", CL)], [("request_id", "next client request id", CL)])
p("C20", "No deadlock or livelock under bidirectional traffic",
  "As long as the client keeps answering the server's requests and reading its output, every request it sends is eventually answered and every message the server sends is eventually delivered, at every concurrency level, even when all running handlers are waiting for client replies that are behind further incoming messages. When nothing is left to do, the server is idle rather than spinning.",
  ["schedules", "histories", "fault_sequences"], "every pattern of handlers calling the client, queued messages, output stalls and response delays that end; liveness is checked as completion within a bounded number of steps once stalls and delays stop",
  "No test has a handler calling the client through a running server.",
  [T, CL, CP], [("responses are consumed by the reader, not by the task queue", T), ("bounded message queue", T)])
p("C21", "Dropping a call future abandons that request and nothing else",
  "If the caller of the service drops an in-flight call (as a timeout middleware does), that handler stops, no other request or client exchange is affected, and the same id can be used again by a later request. Dropping an in-flight initialize leaves the server uninitialized and able to be initialized again.",
  ["schedules", "histories", "crash_points"], "drops at every suspension point of every kind of call, interleaved with polls of other calls in any order, followed by reuse of the id",
  "No test drops a call future.",
  [SP, L, CP], [("pending entry lifetime", SP)])
p("C22", "An id in use is refused, undisturbed, and reusable once answered",
  "A request that reuses the id of a request still in progress or queued is answered with error -32600 without running its handler, and the original request is unaffected, remains cancellable and gets its own answer. Once a request has been answered, in whatever way, its id can be used again by any later request as if new. Integer and string ids with the same text are distinct.",
  ["histories", "schedules"], "every reuse of every id at every point of the earlier request's life, with normal completion, error, cancellation and refusal as the earlier answer",
  "No test reuses an id.",
  [SP, L], [("vacant/occupied entry check when a call is registered", SP)])
p("C23", "JSON-RPC values survive serialization unchanged",
  "Every Request, Response, Error and Id value serializes to JSON that deserializes to an equal value, and every error code converts to and from its integer unchanged.",
  ["inputs"], "all values of the public JSON-RPC types",
  "Tests cover a few literals. A pure function of one value: no schedule, time, I/O or fault is involved.",
  [J, RQ, RS, "src/jsonrpc/error.rs"], [("serde derives", RQ)])
p("C24", "Server drives any tower service and any Loopback by their contracts",
  "Server::serve works with every tower Service and Loopback that keep their contracts, not only with LspService and ClientSocket. Each request or notification read is passed to the service exactly once, unchanged and in order, and only when poll_ready has returned ready since the last call; each response read is passed to the loopback's sink once, unchanged and in order, respecting the sink's back-pressure. While the service or the sink is not ready nothing is lost, and calls in progress and outgoing traffic go on. Each Ok(Some) result and each request the loopback yields is written exactly once and unchanged; a call that yields Ok(None) or an error writes nothing and disturbs no other. When poll_ready or the sink fails, or the input ends, reading stops, all accepted calls are finished and answered, everything the loopback had to say until then is written, the sink is closed, and serve() returns.",
  ["schedules", "inputs", "fault_sequences", "configurations"], "every pattern of readiness, back-pressure, call results, call errors and failures of the service, sink and stream, every interleaving of these with input, output stalls and call progress, every concurrency level",
  "Tests use one mock service that is always ready and answers at once with a constant, and a loopback that never pushes back.",
  [T], [("poll_ready before each call, errors of calls mapped to no response", T), ("Loopback split into request stream and response sink", T)],
  None, ["calls on the user-supplied Service, Stream and Sink, and bytes written by Server::serve"])
p("C25", "What a session holds in memory is bounded by what is in progress",
  "A session can go on for ever: once requests of either side have been answered, refused, cancelled or abandoned by their caller, and once notifications, malformed input and stray responses have been dealt with, the server keeps nothing that belongs to them, so its memory does not grow with the number of messages it has processed, in any state of the lifecycle. And it cannot be flooded: while the output takes nothing, or while every handler slot is taken, the server stops reading messages after a bounded number of them and handlers that send to the client wait, until it can go on, without anything being lost.",
  ["histories", "schedules", "inputs", "fault_sequences"], "every mix of messages and of ways in which they end (answered, failing, cancelled, refused, duplicate, unknown, malformed, stray, abandoned, replied to late), every length of session, every stall of the output or the handlers",
  "Tests process a handful of messages and end; a leak or an unbounded queue shows only in a long history, or in what is held while nothing moves.",
  [SP, CP, CL, T], [("registration of requests in progress, removed when their future is dropped", SP), ("waiters for responses of the client", CP), ("bounded queues between reading, processing and printing", T)],
  None, ["bytes allocated and not freed by the server's code, messages read while nothing can be processed"])
p("C26", "A session can end or be dropped at any point, and leaves nothing behind",
  "When serve() has returned, or the future it returned is dropped at any point, polled or not, everything is released: handlers in progress or queued, the language server value, the input and the output are dropped, without a panic. Whoever uses the client outside of handlers is left neither waiting nor broken: requests to the client that are in flight resolve, to the reply if it had arrived and otherwise to an error, notifications being sent are given up, and later requests and notifications end without waiting. The same holds when an LspService is driven directly and its client socket, whole or split, is dropped, whether or not the service and its calls live on.",
  ["schedules", "fault_sequences", "crash_points"], "every point at which serve() or the client socket can be dropped, every state of handlers, of client requests in flight and of the streams at that time, every order in which the parts are dropped, every interleaving with tasks on other threads that use the client",
  "Tests run serve() to its end with no other task using the client; nothing is ever dropped half way.",
  [SO, CP, SP, T, CL], [("waiters are released when the response sink is closed or dropped", SO), ("handlers owned by the future of serve()", T)],
  None, ["results of client calls made outside of handlers, and the lifetime of handlers, server value and streams"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
