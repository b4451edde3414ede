#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Marshalled values decode back to themselves, byte for byte",
  "For every value built from the supported types (fixed-width integers and floats, strings, arrays, slices, nested and recursive structs, named types, types with their own encoder and decoder, and pointers under a size or cnt tag, with any accepted combination of size/cnt/ber/skip/no tags), decoding its encoding into a fresh variable, or into one that held another value, yields an equal value (nil and empty counted as equal). "
  "Decoding consumes exactly the bytes that encoding produced, so values written one after another can be read back one after another. "
  "The whole-buffer (tail) forms round-trip in the same way.",
  ["inputs", "programs"], "all supported Go types with all accepted tags, all values of them, and sequences of such values",
  "TestEncode/TestDecode sample about 30 fixed values of about 20 fixed struct types with tiny numbers; the property ranges over all types, tags and values (boundary varints, lengths, floats, nesting).",
  ["marshal/writer.go", "marshal/writer_any.go", "marshal/writer_reflect.go", "marshal/reader.go", "marshal/reader_any.go", "marshal/reader_reflect.go", "marshal/marshal.go"],
  [("per-type compiled writer", "marshal/writer_reflect.go WriterFor/Fill"), ("per-type compiled reader", "marshal/reader_reflect.go ReaderFor/Fill")],
  observe=["marshal.Write", "marshal.WriteTail", "marshal.Read", "marshal.ReadTail", "marshal.Writer", "marshal.Reader"])

p("C02", "Encoders emit exactly the documented iproto wire format",
  "The bytes produced for a value are exactly those of the format: little-endian fixed-width scalars, minimal big-endian 7-bit varints for ber, a 32-bit element count before strings and slices unless a tag says otherwise, no prefix for arrays and structs, and for size(X)/cnt(X) fields a prefix of width X holding exactly the number of bytes/elements that follow. "
  "Every way of writing the same value (typed fast path, reflection, pointer or value, low-level writer methods, with-size forms) gives the same bytes, whatever was written to the writer before.",
  ["inputs", "programs"], "all supported types, tags and values, all writer entry points, any writer history",
  "The tests compare a few literals; wrong prefix widths, varint boundaries (128, 16384), float slices, sizes of structs with variable parts or a buffer that has to grow are never reached.",
  ["marshal/writer.go", "marshal/writer_any.go", "marshal/writer_reflect.go", "marshal/marshal.go"],
  [("typed fast paths", "marshal/writer_reflect.go Write/WriteTail/WriteWithSize"), ("size computation", "marshal/writer_reflect.go TWriter.Size, FillStruct; marshal/marshal.go Varsize"), ("buffer growth", "marshal/writer.go ensure")],
  observe=["marshal.Write", "marshal.Writer"])

p("C03", "Decoding untrusted bytes returns the right value or an error, safely",
  "Decoding an arbitrary byte string into any supported type never panics and never allocates memory out of proportion to the input. "
  "It yields exactly the value and the remaining bytes the format prescribes, or an error when the input is truncated, when a declared size does not match its content, when a count cannot be satisfied, or (tail form) when bytes are left over. "
  "Once a reader has failed it stays failed: later reads report the error and yield zero values.",
  ["inputs", "programs"], "all byte strings (including truncations and mutations of valid encodings) and all supported target types",
  "No test decodes anything malformed: every decoded input is a valid encoding of the expected value.",
  ["marshal/reader.go", "marshal/reader_any.go", "marshal/reader_reflect.go"],
  [("bounds checks and sticky error", "marshal/reader.go, reader_any.go"), ("size/count validation", "marshal/reader_reflect.go SetSize/WithSize/SetCount/WithCount")],
  state=[("Reader.Err", "sticky decode error", "marshal/reader.go"), ("Reader.Body", "unread input", "marshal/reader.go")],
  observe=["marshal.Read", "marshal.ReadTail", "marshal.Reader"])

p("C04", "Encoding and decoding are concurrency-safe and outputs never alias",
  "A byte string handed out by an encoder never changes afterwards, appending to it never disturbs another one, and it shares no writable memory with the encoded value or with other outputs, however many further encodings are made from the same or other goroutines. "
  "Any number of goroutines encoding and decoding at once, including the very first use of a type, obtain the same results as they would sequentially.",
  ["schedules", "histories", "inputs"], "all histories of writes on one writer or on the package-level functions, and all interleavings of concurrent users, on new and known types (marshal and sbox layers)",
  "The tests are sequential and look at each output immediately, so shared buffers, pooled writers and the copy-on-write type caches are never exercised.",
  ["marshal/writer.go", "marshal/marshal.go", "marshal/writer_reflect.go", "marshal/reader_reflect.go", "sbox/reader.go", "sbox/writer.go", "sbox/result.go"],
  [("Written() hands out a capped slice", "marshal/writer.go Written"), ("writer/reader pools", "marshal/marshal.go"), ("copy-on-write type caches", "marshal/writer_reflect.go WriterFor, marshal/reader_reflect.go ReaderFor, sbox/writer.go writer, sbox/reader.go reader")],
  observe=["marshal.Write", "marshal.Read", "sbox.WriteTuple", "sbox.ReadMany"])

p("C05", "sbox tuples round-trip and have the tuple wire format",
  "A scalar, string, byte string, slice, array or struct written as a tuple is a 32-bit little-endian field count followed by each field prefixed with its byte length as a varint; a struct field tagged tail contributes one field per element and one tagged tailsplit contributes the fields of every element in order. "
  "Reading such a tuple back into the same type yields an equal value; when reading into a struct, missing trailing fields are left untouched and extra ones are ignored, also when the destination has a fixed number of places. "
  "Malformed tuples give an error or a shortened value but never a panic.",
  ["inputs", "programs"], "all tuple-able types, tags and values; all field counts relative to the target; all byte strings as input",
  "TestWriteTuple/TestReadTuple use seven fixed values; tail and tailsplit, arrays, field counts different from the target's and malformed input are never tried.",
  ["sbox/writer.go", "sbox/reader.go", "sbox/sbox.go"],
  [("tuple writer", "sbox/writer.go WriteTuple, structWriter"), ("tuple reader", "sbox/reader.go ReadRawTuple, structRead")],
  observe=["sbox.WriteTuple", "sbox.ReadRawTuple", "sbox.ReadSizedTuple"])

p("C06", "sbox requests are encoded exactly as the octopus protocol requires",
  "Every select, store, delete, update and call request encodes to its protocol layout: space, index, offset, limit (all, count of keys, or literal), flags carrying the return bit and insert mode, operation codes, varint-prefixed operands, and the right message type. "
  "The key count of a select always equals the number of key tuples that follow it, for every supported way of giving keys, and the operation and argument counts likewise.",
  ["inputs", "programs"], "all request field values, key shapes (scalars, slices, arrays, structs, pointers, mixed interface lists), operation kinds and operand types, argument lists",
  "TestSelect checks six fixed selects with at most four keys; store, delete, update, operations and RPC have no test at all.",
  ["sbox/select.go", "sbox/modify.go", "sbox/rpc.go", "sbox/writer.go"],
  [("key counting and writing", "sbox/select.go CountKeys, WriteKeys"), ("request writers", "sbox/modify.go, sbox/rpc.go"), ("operation codes", "sbox/modify.go opmap")],
  observe=["marshal.Write(sbox.*Req)", "IMsg()"])

p("C07", "sbox responses decode to the tuples the server sent",
  "Reading a result set yields, in order, exactly the tuples that it contains and reports its total count; reading the first one yields the first tuple and the total, or reports that there is none. "
  "A truncated or hostile body gives an error or fewer tuples, never a panic, an invented tuple, or an allocation out of proportion to the body. Any number of goroutines may read result sets at once without disturbing each other.",
  ["inputs", "programs"], "all result sets (0..n tuples of any supported row type, destination given as slice, array, pointer list or single struct) and all truncations and mutations of them",
  "ReadMany, ReadFirst and ReadSizedTuple are not called by any test.",
  ["sbox/result.go", "sbox/reader.go"],
  [("result reader", "sbox/result.go ReadMany, ReadFirst, oneTuple"), ("row reader", "sbox/reader.go")],
  observe=["sbox.ReadMany", "sbox.ReadFirst"])

p("C08", "Frames cross a byte stream unchanged, whatever the chunking",
  "Any sequence of requests, responses and pings written to a stream is read back on the other side as the same sequence (type, id, body, and return code as far as the configured width carries it), for every return-code width, body size, placement of flushes and splitting of the stream into reads; the bytes on the wire are the documented 12-byte little-endian header followed by the code and the body. "
  "If the stream ends or fails anywhere, all complete frames before that point are delivered and then an error, never a partial, shifted or invented frame; a response too short for its return code is delivered as a protocol error. "
  "A body once delivered is never altered by later reads.",
  ["inputs", "histories", "fault_sequences"], "all frame sequences, return-code widths, flush placements, read chunkings, and failure points of the reader or writer",
  "The net package has no tests.",
  ["net/header.go", "net/buf_writer.go", "net/slice_reader.go", "net/consts.go"],
  [("frame codec", "net/header.go"), ("write buffer", "net/buf_writer.go"), ("read buffer", "net/slice_reader.go")],
  observe=["net.HeaderReader", "net.HeaderWriter"])

p("C09", "A request gets exactly one response, from whoever completes it first",
  "However responding, failing, expiring, cancelling, I/O errors and shutdown interleave, a request's responder is called exactly once, with the request's own id and message type and the code and body of the completion that came first; later completions have no effect. "
  "A request can be marked sent only once and taken for work only once, a proper response is accepted only while it is being worked on, and failures are accepted until it is completed.",
  ["schedules", "histories"], "all sequences and interleavings of lifecycle operations on a request from any number of goroutines",
  "The root package has no tests.",
  ["request.go", "response.go", "service.go"],
  [("state machine under lock/CAS", "request.go cas, SetPending, SetInFly, RespondBytes, RespondFail, chainResponse")],
  state=[("Request.state", "new/pending/in fly/prepared/performed", "request.go")],
  observe=["iproto.Request", "iproto.Responder"])

p("C10", "Bookmarks run once each, innermost first, and may revive a request",
  "Every bookmark attached to a request before completion sees the response exactly once, in reverse order of attachment and before the responder, and is detached afterwards; bookmarks cannot be attached once work has started or the request is completed, except by the taking of the request itself. "
  "A bookmark that resets the request stops that delivery: the responder is not called until the request, sent again, is completed again, and then it is called exactly once with the new result. Wrapping a service for statistics reports every request exactly once and changes nothing else.",
  ["histories", "schedules"], "all chains of bookmarks, reset decisions, and completion orders, with concurrent completions",
  "The root package has no tests.",
  ["request.go", "response.go", "stat.go", "service.go"],
  [("bookmark chain", "response.go setReq/unchain; request.go chainResponse, ChainBookmark, ResetToPending, ResetToNew"), ("stat wrapper", "stat.go")],
  state=[("Request.chain", "innermost bookmark", "request.go")],
  observe=["iproto.RequestBookmark", "iproto.StatWrap"])

p("C11", "Timers fire once, never early, never lost; stopped ones stay silent",
  "Every armed timer expires exactly once, not before its deadline and, with the process running, soon after it, however many timers are armed and stopped from any goroutines in any order and with any (equal, tiny, long) durations; a timer whose stop returned before its deadline never expires, and stopping one timer never affects another. "
  "A request or group given a timeout is completed with the timeout code if and only if nothing completed it before.",
  ["histories", "schedules"], "all sequences of arm/stop with arbitrary durations over any number of timers, from concurrent goroutines, repeated re-arming, and expiry during use",
  "The root package has no tests.",
  ["custom_timer.go", "request.go", "wait_group.go", "epoch.go"],
  [("4-ary pairing heap", "custom_timer.go push/remove/putUnder/sort4"), ("heap loop", "custom_timer.go loop")],
  state=[("tHeap", "heap of armed timers", "custom_timer.go")],
  observe=["iproto.Timer", "iproto.Request.SetTimeout", "iproto.MultiRequest.SetTimeout"])

p("C12", "Cancelling or expiring a context reaches everything started under it",
  "After a context is cancelled or expired, every unanswered request made through it is answered as cancelled, every group made through it is cancelled, every descendant context stops being alive, and everything created through it later is cancelled at once; nothing belonging to an unrelated or parent context is touched. "
  "Requests answered before are unaffected, every request made through a context is answered exactly once, and waiting on a context returns as soon as, and not before, everything started under it has finished.",
  ["schedules", "histories"], "all trees of contexts, requests, groups and goroutines, with cancellation or expiry at any point and concurrently with creation and completion",
  "The root package has no tests.",
  ["context.go", "request.go", "generator.go"],
  [("canceler registry", "context.go AddCanceler/RemoveCanceler/cancelAll"), ("request bookmarks", "context.go contextBookmark"), ("request context", "request.go ReqContext")],
  state=[("Context.State", "ok/canceled/timeout", "context.go")],
  observe=["iproto.Context", "iproto.ReqContext"])

p("C13", "A request group yields one response per request, then ends",
  "Collecting a group's results (as a list or as a channel) yields exactly one response for each request added, each carrying that request's index as id and its own code and body, in any order and timing of completions before, during and after collection starts; the channel is closed right after the last one and the list call returns then. "
  "Cancelling, expiring or timing out the group completes every request still open, including ones added later, with the corresponding code and leaves already received responses as they were.",
  ["schedules", "histories"], "all group sizes, completion orders and codes, both collection forms, cancellation/expiry at any point, all concurrent",
  "The root package has no tests.",
  ["wait_group.go", "generator.go", "context.go"],
  [("collector", "wait_group.go Respond/Each/Results"), ("group failure", "wait_group.go Cancel/Expire/performFailAll")],
  state=[("MultiRequest.c/r", "received/requested counters", "wait_group.go")],
  observe=["iproto.MultiRequest", "iproto.MultiResponse"])

p("C14", "A parallel service runs each request once, bounded, and answers it",
  "Every request sent to a worker-pool service is passed to the handler at most once and answered exactly once: with the handler's code and value if it ran, with an internal error if it panicked, with the timeout or cancellation code if that came before it was started. "
  "Never more handlers run than configured (at least one), a panicking, slow or expired handler never costs the service capacity, and requests still queued when the service is stopped are answered with the shutdown code.",
  ["schedules", "histories"], "all request loads, concurrency limits, handler outcomes (value, panic, slow, expired, cancelled) and stop times",
  "The root package has no tests.",
  ["parallel_service.go", "service.go", "request.go", "context.go"],
  [("worker loop", "parallel_service.go Loop"), ("semaphore and recovery", "parallel_service.go serv/inc")],
  state=[("ParallelService.sema", "free worker slots", "parallel_service.go")],
  observe=["iproto.BF.New", "iproto.Service.Send"])

p("C15", "End-point queues neither lose, repeat nor reorder requests",
  "Every request sent to a running end point is delivered to its consumers exactly once if it is still waiting when its turn comes, and not at all if it was completed meanwhile, no matter how far the number of waiting requests exceeds the fast queue and how many goroutines send. "
  "Requests sent by one goroutine reach a single consumer in the order they were sent, sending never blocks on a slow consumer, and a balancer hands each request to exactly one of its children, including children added while it runs.",
  ["schedules", "histories"], "all numbers of senders, consumers and queued requests (below and far above the channel capacity), completions while queued, balancer shapes",
  "The root package has no tests.",
  ["buffer.go", "service.go", "balancer.go"],
  [("overflow buffer", "buffer.go push/loop"), ("simple point", "service.go SimplePoint"), ("balancer", "balancer.go")],
  state=[("Buffer.head/tail", "overflow ring positions", "buffer.go")],
  observe=["iproto.SimplePoint", "iproto.BalancerPoint"])

p("C16", "A server answers every request frame exactly once with its own id",
  "For every request received on a connection whose id is not in use by another unanswered one, exactly one response frame with the same id and message type and the code and body given by the service is written, in whatever order and from whatever goroutines the service answers; pings are answered by the server itself. "
  "Codes of the internal kind never reach the client: they are replaced by the configured code or by the fatal code of the same number. "
  "A client that half-closes its side still gets all its answers and then end of stream.",
  ["inputs", "schedules", "histories"], "all request streams, pipelining depths, answer orders, return-code widths and mappings, and connection closing points",
  "The net/server package has no tests.",
  ["net/server/connection.go", "net/server/server.go", "net/server/config.go", "net/header.go"],
  [("read/write/control loops", "net/server/connection.go"), ("code mapping", "net/server/connection.go Respond")],
  state=[("Connection.inFly", "unanswered requests by id", "net/server/connection.go")],
  observe=["the TCP or unix socket of a server.Server"])

p("C17", "A server survives bad clients and shuts down gracefully",
  "Whatever one client does (disconnect at any byte, stop reading, flood, send garbage), the server does not crash, requests of that client still unanswered when it is gone are cancelled, the service's workers are not blocked by it for ever, and other connections are served as before. With a read timeout configured, a client silent for longer is let go after its answers, and one that keeps sending is not. "
  "Stopping a server lets requests already received be answered, then closes all connections and reports that it is no longer running; it always finishes once the service has answered.",
  ["fault_sequences", "schedules", "histories"], "all disconnect points, stalls and byte streams by misbehaving clients, all stop times relative to traffic",
  "The net/server package has no tests.",
  ["net/server/connection.go", "net/server/server.go", "net/slice_reader.go"],
  [("control loops and cancellation", "net/server/connection.go controlLoop/cancelInFly"), ("shutdown", "net/server/server.go Stop/controlLoop")],
  state=[("Server.conns", "live connections", "net/server/server.go")],
  observe=["server.Server.Running", "server.Server.Stop", "client sockets"])

p("C18", "A client pairs every response with the request it belongs to",
  "Every request sent through a client end point is answered exactly once; if the peer answered it on the connection it was sent on, it gets the code and body of that answer under its own id and message type, whatever the order, delay or chunking of the peer's responses, the number of connections, and the number of requests in flight. "
  "On the wire each unanswered request of a connection has its own id, distinct from the ping id, and carries the caller's message type and body unchanged. "
  "Answers with unknown ids, repeated answers, answers to expired or cancelled requests and ping answers are ignored.",
  ["inputs", "schedules", "histories"], "all request streams, peer answer orders (including late, repeated, unknown and missing answers), connection counts and return-code widths",
  "The net/client packages have no tests.",
  ["net/client/server.go", "net/client/connection/connection.go", "net/client/connection/request_holder.go", "net/header.go"],
  [("in-flight table", "net/client/connection/request_holder.go"), ("read/write loops", "net/client/connection/connection.go")],
  state=[("RequestHolder.reqs", "in-flight requests by wire id", "net/client/connection/request_holder.go")],
  observe=["client.Server.Send", "the peer socket"])

p("C19", "Losing or lacking a connection fails requests promptly and recovers",
  "When a connection breaks at any point, every request in flight on it is answered with an I/O error (or the shutdown code if the client was being stopped) and none hangs; while no connection can be established, requests sent to a stand-alone client are answered with an I/O error rather than kept. "
  "The client re-establishes the configured number of connections once the peer accepts again, and requests sent then are served; it never keeps more connections than are configured; changing the number of connections or stopping takes effect without losing requests already on the wire.",
  ["fault_sequences", "schedules", "histories"], "all sequences of peer failures (refused, closed at any byte, half-closed, silent) and client actions (send, resize, stop)",
  "The net/client packages have no tests.",
  ["net/client/server.go", "net/client/connection/connection.go", "net/client/auto.go"],
  [("reconnect loop", "net/client/server.go Loop/fixConnections/onConnError/AllDisconnected"), ("in-flight flush", "net/client/connection/connection.go flushInFly/controlLoop")],
  state=[("Server.established/dialing", "connection accounting", "net/client/server.go")],
  observe=["client.Server", "the peer's listening socket"])

p("C20", "Calls through client and server together return their own results",
  "With the package's client connected to the package's server over any return-code width, every call made by any number of goroutines, directly, through contexts or groups, through a balancer or an auto-connecting client, returns exactly the code and body the service computed for that very request, or a timeout/cancellation/connection code if one of those happened. An auto-connecting client has one client per address, until it is stopped. "
  "Keep-alive pings never disturb the traffic.",
  ["schedules", "histories", "configurations"], "all mixes of callers, call forms, body sizes, answer orders, timeouts and configurations of the whole stack",
  "No test starts a server or a client.",
  ["net/client/server.go", "net/client/auto.go", "net/server/server.go", "net/server/connection.go", "net/client/connection/connection.go", "request.go", "context.go", "wait_group.go", "balancer.go", "parallel_service.go"],
  [("whole stack", "net/client, net/server, root package")],
  observe=["iproto.Call", "iproto.Context.Call", "iproto.MultiRequest", "client.Auto.Get"])

p("C21", "Finished work leaves nothing behind",
  "In a process that lives long, whatever is finished is let go while the services, contexts, clients and servers it went through live on: a request that was answered, failed, cancelled or expired, its body and response, a group whose responses were collected, a context that is done, a timer that fired or was stopped, and a connection that ended, with its goroutines and its socket. "
  "Memory and goroutines depend on what is in progress (and on caches of bounded size), not on how much was done before.",
  ["histories", "schedules"], "all histories of requests, contexts, groups, timers and connections with every way they can end, of any length",
  "No test runs more than one of anything, and none looks at memory or goroutines.",
  ["request.go", "context.go", "wait_group.go", "custom_timer.go", "buffer.go", "generator.go", "net/server/connection.go", "net/server/server.go", "net/client/connection/request_holder.go", "net/client/connection/connection.go", "net/client/server.go"],
  [("removal from the context", "context.go RemoveCanceler"), ("timer stop at the response", "request.go chainResponse, wait_group.go"), ("rows", "buffer.go loop, request_holder.go remove"), ("connection end", "net/server/connection.go, net/client/server.go onConnError")],
  observe=["runtime.NumGoroutine", "cleanups of collected objects", "runtime.MemStats"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
