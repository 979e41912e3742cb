#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because the file is one JSON object per line)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ST="src/transport/stream/transport.rs"; UT="src/transport/unix/transport.rs"; PE="src/peer.rs"; PH="src/peer_handle.rs"; RQ="src/request.rs"; RT="src/request_tracker.rs"; LI="src/listener.rs"

p("C01","Byte-stream messages arrive intact, once and in order",
 "Over a TCP or Unix stream connection every message that one side reports as sent reaches the other side exactly once, with the same type, request id, service id and body, and in the order in which it was sent, however the operating system splits, merges or delays reads and writes. Nothing is ever delivered that was not sent, and if the connection fails, what was delivered is a prefix of what was sent.",
 ["schedules","inputs","fault_sequences"],"all message sequences and sizes, all ways in which reads and writes are cut short or delayed, all task interleavings, all points at which the connection breaks",
 "The tests send a handful of tiny messages over a local socket pair that never does a short read or write; the state kept between partial transfers is never exercised.",
 [ST,PE,"src/message.rs"],[("incremental frame reader",ST+" poll_read_msg"),("incremental frame writer",ST+" poll_write_msg"),("single command loop per connection",PE+" CommandLoop::run")],
 [("bytes_read / bytes_written","progress inside the current frame across polls",ST)],["bytes on the socket in both directions","messages returned by the peer and request handles"])

p("C02","Everything on the wire follows the documented protocol encoding",
 "Every frame a peer puts on a byte stream is a length field equal to 12 plus the body size, the message type, the request id, the service id and the body in the configured byte order; every datagram on a seqpacket socket is the same without the length field. An independently written decoder recovers from the raw bytes exactly the messages the application sent, and a peer accepts frames written by an independent encoder.",
 ["inputs","configurations","schedules"],"all message types, ids, service ids, body sizes (including empty and maximal), byte orders and transports",
 "Tests always use the library on both ends, so an encoding mistake that is symmetric, or only shows for some ids, sizes or byte orders, cancels out.",
 ["src/message.rs","src/transport/endian.rs",ST,UT,"doc/fizyr-rpc.adoc"],[("header codec","src/message.rs MessageHeader::encode/decode"),("byte order","src/transport/endian.rs"),("length prefix",ST+" poll_write_msg")],
 None,["raw bytes on the simulated socket"])

p("C03","Updates and responses reach exactly the request they belong to, in order",
 "With any number of requests open in both directions at once, each update and each response is delivered to the handle of the request it was sent for and to no other, in the order in which the remote sent them, without loss, duplication or mixing with another request that has the same id in the other direction or had it earlier. A request delivered by the peer carries the id, service id and body that the remote sent.",
 ["schedules","histories","inputs"],"all interleavings of concurrent requests in both directions, updates, responses and handle drops; all request id reuse patterns a remote may produce",
 "The tests run one request at a time; correlation mistakes need several open requests, equal ids in both directions, or id reuse after completion.",
 [RT,RQ,PE],[("maps from request id to channel",RT),("per-request channel",RQ+" recv_message/recv_update")],
 [("sent_requests / received_requests","open requests per direction",RT)],["messages returned by request handles and by the peer handle"])

p("C04","A response concludes the request: nothing follows it",
 "For one request at most one response is put on the wire, and after it no further response or responder update for that request, no matter how many copies of the handle are used at the same time; later attempts fail with an error and send nothing. On the requesting side, once the response has been received no further update is sent, and every further receive reports the end instead of waiting.",
 ["schedules","programs","histories"],"all interleavings of clones of the request handles sending updates and responses concurrently, with id reuse by the remote",
 "One test checks the sequential case; two handle clones racing are a matter of scheduling that a single execution cannot cover.",
 [RQ,RT,PE],[("closed flag shared by handles of one request",RQ),("closing on response",RT+" remove_received_request / process_incoming_response")],
 [("closed","set when the request is finished",RT+" TrackedRequest")],["wire log per request id","results of send calls"])

p("C05","Request ids of open requests are unique, also across counter wrap-around",
 "At no time do two open requests sent by one side of a connection carry the same id; ids of finished requests may be reused, also when the id counter wraps around while old requests are still open. When no id can be found the send fails with an error and nothing is sent, and it never disturbs a request that is already open.",
 ["histories","schedules"],"all histories of opening, finishing and abandoning requests, in particular long histories in which the counter wraps with requests still open, and arbitrarily many concurrently open requests",
 "Reaching the wrap-around takes 2^32 requests; tests open one or two.",
 [RT],[("id allocation skips ids in use",RT+" allocate_sent_request")],[("next_sent_request_id","next candidate id",RT)],["request ids on the wire against the set of open requests"],
 "set the initial value of the id counter (otherwise 2^32 requests are needed to reach the wrap-around)")

p("C06","Send results tell the truth about what was put on the wire",
 "When sending a request, update, response or stream message returns success, the complete message has been handed to the socket exactly once before the call returned. When it returns an error because the message itself was refused (too large, too many descriptors, request already finished, no id available), nothing of it was sent, the connection keeps working and the request, if any, can still be used; other errors are only reported when the connection is really gone.",
 ["schedules","fault_sequences","inputs"],"all message sizes around the limits, all partial-write patterns, socket errors at every point of a message, concurrent senders",
 "Tests only look at the success path of small messages; the claims are about what happened to each message under partial writes, refusals and failures.",
 [PE,PH,RQ,ST,UT],[("result channel answered after the write",PE+" send_raw_message / send_request"),("size check before any byte is written",ST+" poll_write_msg")],
 None,["wire log at the moment a send call returns"])

p("C07","When a connection ends, everyone waiting on it is told and it is released",
 "However a connection ends (remote closes, socket error on read or write, malformed input, local close, the background task being aborted), every pending and every later operation on its peer and request handles finishes with an error or an end indication instead of waiting forever. The background task terminates and the socket is closed.",
 ["schedules","fault_sequences","crash_points"],"every way of ending the connection, at every point of every interleaving, with any set of operations pending at that moment",
 "Tests close connections when nothing else is going on; missed wake-ups and leaked waiters depend on what is pending when the end arrives.",
 [PE,PH,RQ,RT],[("loops end together",PE+" Peer::run"),("channels close when the peer is dropped",PE+" / "+RT)],
 None,["operations still blocked when the simulation has nothing left to do","state of the socket"])

p("C08","Messages sent before an orderly close are delivered before the end is seen",
 "If the remote sends messages and then closes the connection in an orderly way, a receiver that keeps receiving gets every one of those messages, including updates and responses on request handles, before the end of the connection is reported (unless the receiver's own side fails to write to the connection before that, which ends the connection at once). The end is reported as a connection-aborted error, and again on every later call.",
 ["schedules","histories"],"all interleavings of the reader, the internal command queue and the consumers with the arrival of the end of stream, with arbitrarily many messages queued",
 "Losing queued messages needs the end of the stream to overtake them in the internal queue, which depends on scheduling and on a slow consumer.",
 [PE,PH,RQ],[("stop command queued behind received messages",PE+" Peer::run Either::Left")],
 None,["messages returned by receive calls up to the first end indication"])

p("C09","A connection lives exactly as long as its handles, and close means close",
 "A connection stays usable as long as its read handle or any copy of its write handle exists, and ends when the last of them is gone, without disturbing messages whose send was already reported successful. An explicit close from any handle, including a detached close handle that itself keeps nothing alive, ends the connection on both sides after the sends queued before it.",
 ["schedules","programs"],"all orders and interleavings of cloning, splitting, dropping and closing handles from different tasks, while messages are in flight",
 "The tests drop handles in one fixed order; a miscount needs particular clone and drop orders, possibly concurrent.",
 [PH,PE],[("write handle registration commands",PH+" Clone/Drop"),("loop exit condition",PE+" CommandLoop::run")],
 [("write_handles, read_handle_dropped","what is still alive",PE)],["whether the socket is open, against the set of live handles"])

p("C10","A request nobody will receive gets exactly one error response",
 "Once the application has dropped its receiving handle while the connection is still in use, every request that arrives is answered with exactly one error response for its id, no matter how many such requests arrive or whether ids are reused after having been answered. Stream messages that nobody will receive are dropped silently and requests sent by the local side keep working.",
 ["histories","schedules"],"all sequences of incoming requests (fresh and reused ids), streams and updates after the receiver is dropped, interleaved with local requests",
 "No test sends anything to a peer whose receiver is gone; bookkeeping errors only show from the second use of an id.",
 [PE,RT],[("automatic error response",PE+" process_incoming_message")],None,["wire log of the peer whose receiver was dropped"])

p("C11","No input from the network can crash a peer or make it deliver garbage",
 "For every sequence of bytes or datagrams a remote may send, in any fragmentation, a peer never panics, never hangs while input or end-of-stream is pending, and never allocates for more than its configured read limit. Everything before the first malformed frame is delivered normally, the malformed frame is reported as an error, and on a byte stream nothing after it is interpreted and the connection ends.",
 ["inputs","fault_sequences","schedules"],"all byte sequences: invalid types, lengths below the header size and above the limit, truncated frames, garbage; in all fragmentations; datagrams of every size",
 "Tests only receive frames that the library itself produced.",
 [ST,UT,"src/message.rs",PE],[("length and type checks",ST+" poll_read_msg"),("fatal errors stop the read loop",PE+" ReadLoop::run")],None,["messages and errors returned by the peer handle, panics, blocked operations"])

p("C12","Protocol violations by the remote are reported and contained",
 "Well-formed messages that break the protocol (an update or response for a request that is not open, a request with the id of a request that is still open) are reported to the receiver as one error each, and affect nothing else: every open request, every other message and the connection itself carry on as if the offending message had not been sent.",
 ["inputs","histories","schedules"],"all histories of valid and invalid messages, ids and message types, interleaved with normal traffic in both directions",
 "The existing tests check two such cases on an empty connection; containment is a claim about every state the connection can be in.",
 [RT,PE],[("unknown / duplicate id errors",RT+" process_incoming_message")],None,["errors and messages returned, against an executable reference model"])

p("C13","Message size limits are enforced exactly, in both directions",
 "A message whose body is at most the configured limit is sent or accepted, and one byte more is refused: locally before anything is sent and without harm to the connection, and on reception with an error instead of a delivered (or truncated) message. A limit set for one direction has no effect on the other.",
 ["inputs","configurations"],"all body sizes around all configured read and write limits on all transports, including zero and limits that differ per direction",
 "Tests use default limits and tiny bodies.",
 [ST,UT,"src/error.rs"],[("payload size check",ST+" / "+UT),("limits per direction","src/transport/*/mod.rs split")],None,["results of send and receive calls, wire log"])

p("C14","File descriptors travel with their message, never leak, and obey the limits",
 "On a seqpacket connection the descriptors attached to a message arrive with exactly that message, all of them, in order and referring to the same files; a message with more descriptors than the configured limit of either direction is refused with an error rather than delivered with some missing. When all bodies and handles are gone no descriptor remains open, whatever errors, cancellations or closes happened on the way.",
 ["inputs","schedules","fault_sequences"],"all numbers of descriptors around the limits, all messages types, receivers that are dropped, cancelled, short of descriptors or abandoned with messages queued",
 "One test passes two descriptors once and does not look for leaks or limits.",
 [UT,"src/transport/unix/body.rs",PE],[("ancillary data handling",UT+" poll_read_msg / poll_write_msg")],None,["inode numbers of sent and received descriptors, number of open descriptors of the process"])

p("C15","Abandoning an operation half-way loses and breaks nothing",
 "Dropping the future of any send or receive operation before it completes never corrupts the byte stream, never makes a message that was received disappear (the next receive call returns it) and never blocks or fails other operations. A send that is abandoned takes effect completely or not at all.",
 ["schedules","crash_points"],"every point at which a future can be dropped, for every operation, combined with partial I/O and concurrent use",
 "No test cancels anything; users do it with timeouts and select all the time.",
 [PE,PH,RQ,ST],[("commands are executed by the peer task, not by the caller",PE),("messages wait in channels",RQ)],None,["wire log and messages received after cancellations"])

p("C16","Progress: no operation waits forever while the connection works",
 "As long as the network eventually delivers and both peers run, every send completes, every message on the wire reaches its receiver and every response reaches its requester, whatever the amount of traffic, buffer sizes and order in which the application serves its handles. In particular both sides may send more than the buffers hold at the same time, and a request or stream nobody is reading at the moment does not hold up others.",
 ["schedules","inputs","fault_sequences"],"all schedules with weak fairness, all buffer capacities and message sizes, stalls and partitions that heal",
 "Deadlocks and lost wake-ups need full buffers in both directions or particular wake-up orders.",
 [PE,ST,UT,RQ],[("read loop never waits for consumers (unbounded queues)",PE+" ReadLoop::run"),("read and write halves polled concurrently",PE+" Peer::run / src/util/select.rs")],None,["operations still blocked when the simulation has nothing left to do"])

p("C17","A listener serves every client independently of the others",
 "While a listener runs, each connection that is accepted gets its own peer, served concurrently with all others and with the information of the client that made it; a client that misbehaves, disconnects at any moment, is slow, or whose handler panics or never returns affects no other client and does not stop the listener. Only an error of the listening socket itself ends it.",
 ["schedules","fault_sequences","inputs"],"any number of clients connecting, resetting, sending garbage, stalling, or vanishing between connect and accept, in every interleaving",
 "No test runs a listener with more than one client or with a failing one.",
 [LI,"src/util/accept.rs"],[("accept loop spawning a task per peer",LI+" Listener::run/accept")],None,["service seen by well-behaved clients, result of running the listener"])

p("C18","Binding a Unix path works after a crash and destroys nothing but sockets",
 "Binding a listener to a path on which an earlier process left its socket file succeeds and clients then reach the new listener. If the path holds anything other than a socket (a regular file, a directory, a named pipe, a link that leads to no socket) it is left untouched and binding fails with an error. Nothing beside the path is ever touched.",
 ["crash_points","histories","inputs"],"all states of the path (absent, stale socket, socket of either kind, regular file with contents, directory, missing parent), all crash and restart sequences of listeners and clients",
 "Tests never bind to a path that already exists.",
 ["src/transport/stream/mod.rs","src/transport/unix/mod.rs"],[("unlink of stale sockets before bind","Bind implementations in src/transport/*/mod.rs")],None,["file system state and connectivity after each bind in a scratch directory"])

p("C19","A typed interface carries every call and update faithfully",
 "With a client and server generated from the same interface definition, the server sees exactly the requests, updates and stream messages the client sent, under the right name and with equal values, and the client sees exactly the responses and updates the server sent for that call, for any number of concurrent calls. A request, update or stream id that the definition does not have, a body that does not decode as the type it should have, and an error response each surface as an error at the receiving side, leave the connection and every other call usable, and never show up as a value of the wrong type or under another name.",
 ["schedules","inputs","programs","fault_sequences"],"all interleavings of concurrent typed calls, updates in both directions and streams; all values; untyped remotes that send unknown ids, undecodable bodies and error responses",
 "The macro tests check one call of each kind in sequence and never an ill-fitting message.",
 ["src/macros.rs","macros/src/interface/mod.rs","macros/src/interface/parse.rs","src/format.rs","src/error.rs"],[("generated client and server","macros/src"),("encode/decode traits","src/format.rs")],None,["values returned by generated clients and servers"])

p("C20","Asking for the wrong kind of message loses nothing",
 "If the next message of a request is an update when the response is asked for, or the response when an update is asked for, the caller is told so and the message is kept: the matching call made next returns it. Any mixture of such calls, on any interleaving with arrivals, yields every update and the response exactly once and in order.",
 ["schedules","programs"],"all sequences of update and response receives on a request handle relative to all arrival sequences, including after the connection has ended",
 "Tests call the receive functions in the matching order only.",
 [RQ],[("one-message look-ahead buffer",RQ+" SentRequestHandle")],[("peek_buffer","message that was not asked for",RQ)],["results of receive calls against the messages on the wire"])

p("C21","What is over leaves nothing behind",
 "What a peer, its handles, a listener and a server hold (memory, tasks, sockets, file descriptors) depends on what is open at the moment (connections, unanswered requests, live handles, messages not yet read) and not on how much has happened before. Requests that were answered, messages that were delivered, operations that were refused or cancelled, messages that broke the protocol and connections that ended all leave nothing behind, even while other requests or connections stay open the whole time; and a connection or a server that has done any amount of work serves the next request as it did the first. When the last handle is gone and the connection has ended, no task or socket of it remains.",
 ["histories","schedules","fault_sequences"],"all histories of requests, streams, refused sends, cancelled operations, protocol violations and client connections of any length, with other requests and clients held open throughout",
 "A leak is invisible in a test that makes a handful of requests and exits; users run these peers for months.",
 [RT,PE,LI,UT],[("entries of finished requests are removed",RT),("read loop task ends with its peer",PE),("finished tasks are not kept","src/listener.rs run/accept")],None,["heap in use, live tasks, open sockets and descriptors at equal points of equal rounds"])

p("C22","A transport used directly keeps its contract",
 "Used without a peer, the halves of a split transport do what their documentation says. A write that reports success has put the whole message on the connection, and the reading half at the other end returns exactly the messages written, in order, each with its header, body and descriptors. A read may be abandoned at any moment and taken up again later, and a write that is not finished is continued by writing the same message again; nothing is lost, repeated or spliced. A message over a size or descriptor limit is refused with an error that is not fatal when writing, and when reading from a seqpacket socket, and the half goes on with the next message; refused when reading from a byte stream the error is fatal. The end and the failure of the connection are fatal errors, and a failure does not look like an orderly end. No read waits while a message is there and no write while there is room, and a transport can be split anew between messages.",
 ["schedules","inputs","crash_points"],"all message sequences, sizes, types and ids on all transports, all points at which a read or write can be abandoned and resumed, all ways in which the socket splits, delays or fails transfers",
 "The transport tests exchange ten small messages that are transferred in one piece; progress kept across abandoned calls and the fatal flag of errors are never looked at.",
 ["src/transport/mod.rs",ST,UT],[("resumable frame reader and writer",ST+" poll_read_msg / poll_write_msg"),("datagram reader and writer",UT),("futures that borrow a half","src/transport/mod.rs ReadMsg / WriteMsg"),("fatal flag","src/transport/mod.rs TransportError")],
 [("bytes_read / bytes_written / header_buffer","progress inside a message across calls",ST)],["results of the halves' calls against the bytes and datagrams on the simulated socket"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
print(len(P))
