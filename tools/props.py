#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept in step with MANIFEST.json)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","No data races on shared library state",
 "Whatever methods of a socket, connection, inproc end point or networking transport are called concurrently by any number of goroutines, the library never reads or writes a piece of its own shared mutable state (connection lists, option tables, listener, flags, subscription sets, routing and peer tables, queues, unread buffers, global registries) while another goroutine may be writing it. Every such access is ordered by a common lock, an atomic operation, or completes before the object is visible to other goroutines.",
 ["schedules","programs"],"all interleavings of any set of concurrent API calls with the library's own reader, writer, reaper, accept and reconnect goroutines",
 "The tests run a handful of fixed call patterns without the race detector; a race needs two particular accesses to coincide.",
 ["socket.go","conn.go","msgio.go","pub.go","sub.go","rep.go","req.go","router.go","transport.go","auth.go","internal/inproc/conn.go","internal/inproc/inproc.go","networking/transport.go"],
 [("per-object mutexes (socket.mu, reaperCond.L, pool mu, Conn.mu, Conn.wmu, broker mu)","socket.go, msgio.go, conn.go, internal/inproc"),("atomics for flags and counters","conn.go, pub.go, networking/transport.go, auth.go")],
 [("socket.conns/props/listener/isClosed","socket state","socket.go"),("pool connection lists","ws/rs/conns/subscribers","msgio.go pub.go rep.go req.go router.go")])
p("C02","No self-deadlock and no lock-order cycle",
 "No goroutine of the library ever waits for a lock it already holds, locks are always acquired in an order that has no cycle, and every lock taken is released on every way out of the code that took it (early returns included), so that locking alone can never make Send, Recv, Dial, Listen, SetOption, Close or a background goroutine hang.",
 ["schedules","programs"],"all call chains and all interleavings of goroutines taking the library's locks",
 "Lock-order inversions and recursive read locks only hang under a particular interleaving; the suite had one such hang and skips it.",
 ["socket.go","msgio.go","pub.go","sub.go","rep.go","req.go","router.go","conn.go","internal/inproc/inproc.go","networking/transport.go"],
 [("lock hierarchy socket.mu > pool mu > Conn.mu / semaphore","socket.go addConn/rmConn, msgio.go")])
p("C03","No lock is held while waiting for a peer",
 "While the library waits for something only a peer, a user callback or another goroutine can provide (network or inproc reads, writes, accepts and dials, channel operations, sleeps, joins, calls into user-supplied handlers), it holds no lock that any other operation needs; waiting for a callback that is already running and itself waits for nothing does not count. The only locks that may be held across network I/O are those whose sole purpose is to serialize that very I/O on one connection.",
 ["schedules","fault_sequences"],"all schedules and all peers, including peers that stop reading or never answer",
 "Tests use prompt peers; a peer that stops reading while connections come and go is needed to see the hang.",
 ["socket.go","msgio.go","rep.go","req.go","router.go","pub.go","sub.go","conn.go","networking/transport.go","internal/inproc/conn.go"],
 [("snapshot of the connection list under the lock, I/O outside","msgio.go mwriter, router.go, rep.go, req.go")])
p("C04","Library goroutines end once their socket is closed",
 "After Close of a socket (or Stop of a networking transport) every goroutine the library started for it terminates: each point where such a goroutine can wait also wakes up on the close, and no loop continues without re-checking it (message handlers of the networking package and the functions of Proxy run on behalf of their user). This holds whatever the peers do and however full the queues are.",
 ["schedules","histories"],"all schedules, all peer behaviours, any fill level of the internal queues at the time of Close",
 "One leak test covers Dial/Close of one socket type with idle queues.",
 ["socket.go","msgio.go","pub.go","rep.go","router.go","networking/transport.go"],
 [("context of the socket selected on in every loop; Close closes the connections readers wait on","socket.go Close, msgio.go listen, pub.go addConn, rep.go run")])
p("C05","Close releases everything the socket owns",
 "Closing a socket closes its listener, cancels its context, and closes every connection it holds; a connection or listener that is established while the socket is being closed is closed as well instead of being kept. For an ipc listener only the socket file of the endpoint the socket itself listens on is removed.",
 ["schedules","histories"],"all interleavings of Close with Listen, Dial, incoming connections and reconnects, and all sequences of Listen and Dial before it",
 "Tests close idle sockets; late establishment needs a race.",
 ["socket.go"],[("closed flag checked under the lock in addConn and Listen","socket.go"),("Close iterates the connection list after setting the flag","socket.go Close")])
p("C06","Operations on a closed socket fail",
 "On a socket whose Close has returned, Send, SendMulti, Recv, Listen, Dial and a second Close return a non-nil error, for every socket type, and do not touch the network or any queue.",
 ["histories","programs"],"all socket types, all operations, any history before Close",
 "Tests check single operations on some socket types; four types bypassed the check.",
 ["socket.go","pub.go","rep.go","req.go","router.go","dealer.go","pair.go","push.go","pull.go","stream.go","sub.go","xpub.go","xsub.go"],
 [("isClosed test at the start of each operation","socket.go")])
p("C07","Recv returns a message or an error, never neither",
 "Recv on any socket returns a nil error only together with a message that was received from a peer (and whose own Err is nil); when the socket is closed or its context ends while Recv waits, it returns a non-nil error.",
 ["schedules","fault_sequences"],"all socket types, all interleavings of Recv with Close, cancellation, and peer failures",
 "Needs cancellation to hit while Recv is blocked, per reader implementation.",
 ["socket.go","msgio.go","pub.go","rep.go","req.go","router.go"],[("read methods of the reader pools","msgio.go pub.go rep.go req.go router.go")])
p("C08","Send reports success only if the message was handed over",
 "For PAIR, PUSH, DEALER, SUB, XSUB, REQ and REP sockets, Send and SendMulti return nil only if the message was written without error to at least one connection (for REP: queued for the connection that made the request); an empty set of connections, an error of the connection, or an expired deadline yields a non-nil error.",
 ["schedules","fault_sequences","histories"],"all histories of connections coming and going, all write failures",
 "Tests send on healthy, connected sockets.",
 ["socket.go","msgio.go","req.go","rep.go"],[("write methods of the writer pools","msgio.go mwriter.write, req.go, rep.go")])
p("C09","Send and Recv never wait beyond their deadline or close",
 "Send and SendMulti wait at most for the configured socket timeout and Recv, Dial's retries and connection handshakes wait no longer than the socket's context lives: every wait on their way is also ended by that deadline or context.",
 ["schedules","fault_sequences"],"all points at which an operation can block, all peers (including ones that stop reading or never complete a handshake)",
 "Tests exercise one timeout (PUSH without peers) and one cancellation.",
 ["socket.go","msgio.go","req.go","rep.go","router.go","pub.go","internal/errgroup/errgroup.go"],
 [("context.WithTimeout in Send/SendMulti, context in selects, AfterFunc closes for I/O","socket.go, msgio.go, req.go, internal/errgroup")])
p("C10","No peer input can crash the process",
 "Whatever bytes a peer sends (greeting, handshake commands, metadata, identities, frames, subscriptions, requests, inproc data, networking payloads), the library's own code never panics on it: every index, slice bound, decoded width, type assertion, allocation size and division that involves peer-supplied data is in range. Malformed input ends in an error or is ignored.",
 ["inputs"],"all byte sequences a peer can send at any protocol stage",
 "Tests feed a few malformed greetings; truncated metadata and unknown socket types used to panic.",
 ["conn.go","protocol.go","msg.go","socket_types.go","pub.go","rep.go","req.go","router.go","security.go","security/null/null.go","security/plain/plain.go","internal/inproc/conn.go","networking/transport.go"],
 [("length checks before slicing","protocol.go Property.Write, msg.go unmarshalZMTP, plain.go credential, pub.go topic")])
p("C11","Memory is not reserved on a peer's say-so",
 "The amount of memory the library allocates for a frame, a command or a metadata property is bounded by a constant plus what was actually received: a length a peer merely announces never determines the size of an allocation beyond a fixed bound.",
 ["inputs"],"all announced lengths at every place a length is decoded from peer data",
 "No test sends a header with an announced length it does not follow up.",
 ["conn.go","protocol.go","msg.go","security/plain/plain.go"],[("piecewise reading of large bodies","conn.go readBody")])
p("C12","Every frame carries its true length and flags",
 "For every frame written, the header announces exactly the number of body bytes that follow (one-byte form up to 255, eight-byte big-endian form with the LONG flag above), MORE is set on all frames of a message but the last, and COMMAND is set on commands and only on commands; the reader decodes the same layout and rebuilds a message from exactly its frames, in order. This holds for Send and SendMulti and for every security mechanism, including those that change the size of the data.",
 ["inputs"],"all frame sizes, numbers of frames, and security mechanisms",
 "Tests use small frames and size-preserving mechanisms.",
 ["conn.go","protocol.go"],[("send, sendMulti, read","conn.go")])
p("C13","Messages on one connection never interleave",
 "All bytes of a message, or of a command, written to a connection are contiguous on the wire: whatever is sent concurrently on the same connection (other messages, commands, a message whose Send timed out) comes entirely before or after it.",
 ["schedules"],"all interleavings of writers of one connection",
 "A corruption needs two writers interleaved between the header and the body of a frame.",
 ["conn.go"],[("per-connection write mutex held over the whole message","conn.go SendMsg, SendCmd, Write")])
p("C14","No connection is used before its handshake succeeded",
 "A connection becomes part of a socket (and any message is sent or received on it) only after the greeting was checked (signature, version, identical security mechanism), the security handshake returned success and the peer's socket type was found compatible; a failure in any of these yields an error and no connection. STREAM sockets, which speak raw TCP, are the only exception.",
 ["inputs","fault_sequences"],"all peer greetings and handshakes, all failures at each step, both roles",
 "Tests cover a few mismatching greetings and socket-type pairs.",
 ["conn.go","protocol.go","socket.go"],[("Open, init, greet, greeting.read","conn.go protocol.go")])
p("C15","Security handshakes admit only who completes them",
 "A NULL or PLAIN handshake succeeds only if every command of the mechanism was received with the expected name in the expected order and the peer's metadata was decoded without error; a PLAIN server sends WELCOME, and completes, only for a HELLO whose user name and password both equal its own, and a PLAIN client presents its own user name and password in HELLO. A handshake leaves the configured credentials unchanged, so that later connections use the same.",
 ["inputs","histories"],"all commands a peer can send at each step, all credentials, all numbers of connections",
 "Tests use matching credentials, conforming peers and a single handshake.",
 ["security.go","security/null/null.go","security/plain/plain.go"],[("command-name checks and credential comparison","security/plain/plain.go")])
p("C16","A broken connection is noticed and reported exactly once",
 "When reading from or writing to an established connection fails for any reason other than a timeout (end of stream, truncated frame, closed pipe, other network error, undecodable frame), the connection is marked closed and its close callback runs exactly once, with no lock of the connection held; operations on a connection that is already marked closed return an error without reading or writing.",
 ["fault_sequences","schedules"],"all I/O errors at every read and write of the protocol, concurrent failures on both directions",
 "Tests close peers between messages only.",
 ["conn.go"],[("checkIO, SetClosed with compare-and-swap","conn.go")])
p("C17","A dead connection disappears from its socket",
 "Once a connection is marked closed, the socket's background reaper removes it from the socket, from its reader pool and from its writer pool, and closes it; registrations that arrive while the reaper works are not lost and removing a connection removes that connection only.",
 ["schedules","histories"],"all interleavings of failures with the reaper, additions and other removals",
 "Needs failures to coincide with reaping; the effects (leaks, sends to dead peers) are not asserted anywhere.",
 ["socket.go","msgio.go","pub.go","rep.go","req.go","router.go"],[("scheduleRmConn, connReaper, rmConn","socket.go"),("rmConn of the pools","msgio.go pub.go rep.go req.go router.go")])
p("C18","Only dialed connections reconnect, to their own endpoint",
 "When an established connection is lost, a socket with automatic reconnection dials again the endpoint that very connection was dialed with; an accepted connection is never re-dialed, a socket without automatic reconnection never reconnects, a failed handshake triggers no reconnection, and reconnecting does not run inside the Send or Recv that noticed the loss.",
 ["histories","fault_sequences"],"all sequences of Listen and Dial on one socket, all connection losses",
 "The reconnect tests use one dialed endpoint per socket.",
 ["socket.go","conn.go"],[("close callback installed by Dial","socket.go Dial")])
p("C19","PUB and XPUB deliver exactly what a subscriber asked for",
 "A PUB or XPUB socket writes a message to a subscriber's connection only if the message's first frame starts with a topic that subscriber is subscribed to at that time, an empty topic matching everything; a subscription message adds exactly its topic for that connection only, an unsubscription message removes exactly its topic, and neither is delivered to the application.",
 ["inputs","histories"],"all topics, messages and sequences of subscriptions, all subscribers",
 "Tests use a few topics and subscribers; per-connection isolation and exact removal are not sampled.",
 ["pub.go","conn.go"],[("subscribe, subscribed, topic","conn.go pub.go")])
p("C20","Publishing never waits for a subscriber",
 "Send on a PUB or XPUB socket never waits for any subscriber: a message for a subscriber whose queue is full is dropped for that subscriber alone, all other subscribers still get it, and each subscriber's queue is emptied in order independently of the other subscribers.",
 ["schedules","fault_sequences"],"all subscriber speeds, including subscribers that stop reading",
 "One test uses a slow subscriber with one HWM value.",
 ["pub.go"],[("non-blocking send to per-subscriber channels","pub.go pubMWriter")])
p("C21","No subscription is lost to (re)connection",
 "Every topic a SUB socket is subscribed to is sent to every publisher it connects to: to the connections it has when the topic is set and to each one made or accepted later, including while SetOption runs, and also when writes to other connections fail or others are lost. A connection made after an unsubscription is not told of that topic any more, and those that exist are told of the unsubscription.",
 ["schedules","histories"],"all interleavings of SetOption with Dial, Listen, accepted connections and reconnects",
 "The window between recording and registering needs a particular interleaving.",
 ["sub.go","socket.go"],[("topics recorded before the connection check; replay in addConn","sub.go SetOption, socket.go addConn")])
p("C22","ROUTER keeps peers apart by identity",
 "Recv on a ROUTER socket prepends, as its own frame, the identity of the connection the message came from; Send writes the remaining frames, without the identity, exactly once to the connections whose identity equals the first frame and to no other, and fails for a message without frames. A peer that announced no identity, or an empty one, is given one made of random bytes of its own before it takes part; an announced identity is kept.",
 ["histories","inputs"],"all peers, identities and messages",
 "Tests use a few well-behaved peers.",
 ["router.go","socket.go"],[("routerQReader.listen, routerMWriter.write, addConn","router.go socket.go")])
p("C23","REQ and REP keep requests and replies together",
 "A REQ socket sends each request behind one empty delimiter frame to one connection, taking them in turn, and reads the reply from that same connection; a REP socket splits a request at its first empty frame, hands out only what follows, and sends each reply, behind exactly the request's envelope, once and only to the connection the request came from. A REP Send without an outstanding request fails.",
 ["histories","inputs","schedules"],"all request contents (including empty frames), numbers of connections, connection losses, for operations of a socket that do not overlap",
 "Tests use single-frame bodies and one connection per REQ.",
 ["req.go","rep.go"],[("reqState, repState, splitReq","req.go rep.go")])
p("C24","Message buffers are not modified or shared behind the caller's back",
 "Sending never modifies the frames or the frame list of the message it was given and keeps no reference to an inproc buffer after the write returned; a received message's frames belong to the receiver alone (no buffer is reused for a later message), and Clone, Bytes and NewMsgFromString return memory that is independent of their input.",
 ["programs","histories"],"all messages, all callers that reuse or keep buffers",
 "Tests compare contents right after the operation and never reuse the buffers.",
 ["msg.go","conn.go","req.go","rep.go","router.go","msgio.go","internal/inproc/conn.go"],[("fresh slices for envelopes and bodies","req.go, router.go, rep.go, conn.go, inproc/conn.go")])
p("C25","An inproc connection is a reliable byte stream",
 "Data written to one end of an inproc connection is read from the other end completely and in order, whatever the sizes of the reads; data written before a close is still delivered before end of file is reported; blocked reads and writes end when either end is closed or their deadline passes, and closing twice is harmless.",
 ["schedules","inputs","histories"],"all read and write sizes, all interleavings of Read, Write, Close and deadlines",
 "The only stream test is skipped; frames over 255 bytes used to be corrupted.",
 ["internal/inproc/conn.go"],[("read, write, pipeDeadline","internal/inproc/conn.go")])
p("C26","The inproc broker pairs each dial with one accept",
 "Listening on an inproc address in use fails; dialing an address nobody listens on fails; each dialed connection is handed to exactly one Accept of that address's listener, oldest first; closing the listener frees the address, makes blocked and later Accepts fail and closes the connections not yet accepted.",
 ["schedules","histories"],"all interleavings of Listen, Dial, Accept and Close",
 "Tests have one listener, one dialer and no concurrent close.",
 ["internal/inproc/inproc.go"],[("broker table under one mutex with a condition variable","internal/inproc/inproc.go")])
p("C27","Socket-type compatibility is total, symmetric and as in ZMTP",
 "The compatibility of two socket types is defined for every pair of strings a peer can announce, is symmetric, is never satisfied by an unknown type, and for the twelve known types equals the table of the ZMTP specification (with STREAM compatible only with STREAM).",
 ["inputs"],"all pairs of socket types, known or not",
 "Tests enumerate known pairs through sockets; unknown types used to panic.",
 ["socket_types.go"],[("IsCompatible","socket_types.go")])
p("C28","Invalid options are rejected without effect",
 "SetOption on PUB and SUB sockets accepts only the option names they support with values of the right type and range; anything else returns an error, never panics, and leaves the stored options, the subscriptions and the high-water mark unchanged.",
 ["inputs"],"all option names and values of any dynamic type",
 "Tests set valid options.",
 ["pub.go","sub.go","socket.go"],[("validation before application","pub.go sub.go SetOption")])
p("C29","A failed Listen, Dial or accept leaves nothing open",
 "When establishing a connection or a listener fails at any step after the transport succeeded, the transport's connection or listener is closed before the error is reported or logged, in Dial, for accepted connections, in Listen, and for the sockets the networking transport creates for a peer.",
 ["fault_sequences"],"all failure points between a successful transport Dial, Accept or Listen and success of the operation",
 "Descriptors leaked on failure paths are not counted by any test.",
 ["socket.go","networking/transport.go"],[("Close on the error paths","socket.go Dial, serve, Listen; networking ConnectPeerWithAddress")])
p("C30","Greeting and metadata are encoded and decoded alike",
 "What the library writes as a ZMTP greeting or as handshake metadata is what it reads back: every field is decoded from the very offset, width and byte order it was encoded with, the greeting is 64 bytes with signature, version, mechanism and server flag in the places of the specification, names longer than their length field are refused, and the socket type and identity are announced under the names they are looked up by.",
 ["inputs"],"all greetings, property names and values",
 "Tests decode a few constants.",
 ["protocol.go","msg.go","conn.go"],[("greeting.marshal/unmarshal, Property.Read/Write, Cmd.marshalZMTP/unmarshalZMTP","protocol.go msg.go")])
p("C31","Proxy forwards every message unchanged, both ways, until an error",
 "Proxy forwards each message received on one socket to the other socket, unmodified and in order, in both directions, stops a direction at its first error, returns that error, and does not drop a received message while it runs; a direction that stopped can always report its error and leaves no goroutine behind.",
 ["histories","fault_sequences"],"all messages and all errors in either direction",
 "Tests pass a few messages in one direction.",
 ["proxy.go"],[("two forwarding loops and a buffered error channel","proxy.go")])
p("C32","The networking transport dispatches every message once, to its handler",
 "A message received by the networking transport is passed exactly once to the handler registered for its type, unless it cannot be decoded (then it is counted as dropped) or is the node's own broadcast (then it is ignored); a peer is listed as connected exactly while a socket for direct messages to it is held, every socket the transport made is closed once Stop, and what ran meanwhile, have returned, and Stop, DisconnectPeer and use before Start never panic.",
 ["histories","schedules","inputs"],"all message contents, all sequences of ConnectPeer, DisconnectPeer, Start and Stop",
 "The package has no tests.",
 ["networking/transport.go"],[("processMessage, peers/dealers tables under one lock","networking/transport.go")])
p("C33","Endpoints resolve to the transport that is registered for them",
 "An endpoint is accepted only if it has exactly one scheme separator and its scheme names a registered transport; Listen and Dial use that very transport with the address it returned, registering a name twice fails and keeps the first registration, and the default transports tcp, ipc, udp and inproc map to the networks they name.",
 ["inputs","histories"],"all endpoint strings and registrations",
 "Tests check a few endpoints.",
 ["transport.go","utils.go","transport/transport.go","socket.go"],[("transports registry, splitAddr","transport.go utils.go")])
p("C34","A group of sends reports the first failure and stops at cancellation",
 "Each function started in the internal context-aware group runs at most once and not at all once the context has ended; Wait returns an error whenever a function failed or the context ended before it finished, returns without waiting for functions that outlive the context, and such functions can still complete without blocking.",
 ["schedules"],"all interleavings of completion and cancellation",
 "Tests cover single schedules.",
 ["internal/errgroup/errgroup.go"],[("wrap","internal/errgroup/errgroup.go")])
p("C35","A CURVE public key never reveals its secret key",
 "The public key returned with a generated CURVE key pair, and the public key derived from a secret key, depend on the secret only through the curve's one-way public-key function; the secret key is drawn from the system's secure random source.",
 ["inputs"],"all key pairs and secret keys",
 "Tests check that keys are non-empty.",
 ["auth.go"],[("NewCurveKeypair, AuthCurvePublic","auth.go")])
p("C36","Messages of one connection arrive in order and complete",
 "What Recv of a PULL, SUB, XSUB, DEALER, ROUTER, PAIR or XPUB socket returns are the messages read from its connections: each exactly once, and those of one connection in the order in which the peer sent them, while the connection lives. When nobody receives and the socket's queue is full, reading from the connections stops; no message is dropped, replaced or overtaken. Messages given to Send and SendMulti one after the other (PUSH, DEALER, PAIR, ROUTER, PUB, XPUB, XSUB) are written to each connection in that order, none twice to the same connection, and each to at least one connection that it is meant for; no goroutine still writes an earlier message when the next one can be sent, except the one goroutine that empties a subscriber's queue in order. Messages that PUB and XPUB drop at the high-water mark are not covered (C39).",
 ["histories","schedules"],"all messages, sequences of sends and receives, full and empty queues",
 "Ordering over all schedules cannot be sampled.",
 ["msgio.go","router.go","pub.go","socket.go"],[("qreader.listen, mwriter.write","msgio.go"),("routerQReader.listen, routerMWriter.write","router.go"),("pubQReader.listen, pubMWriter.addConn","pub.go")])
p("C37","Load is balanced and peers are served fairly",
 "PUSH and DEALER distribute messages over their connections and PULL, DEALER and ROUTER receive fairly from all of theirs.",
 ["histories","schedules"],"all traffic patterns",
 "Needs statistics over histories.",
 ["msgio.go"],[("mwriter.write, qreader","msgio.go")])
p("C38","Interoperation with libzmq peers",
 "Every exchange a conforming ZMTP 3.x peer can start with a socket of this library is answered as the specification prescribes.",
 ["inputs","histories"],"all conforming peers",
 "Only tests against czmq, where installed.",
 ["conn.go","cxx_zmq4_compat.go"],[("whole protocol engine","conn.go protocol.go")])
p("C39","The high-water mark bounds a subscriber's queue exactly",
 "A PUB socket keeps for each subscriber that does not read up to n messages besides the one being written, where n >= 1 is the high-water mark (option HWM) that was in effect when the subscriber connected, or 1000 if none was set (also for XPUB): none of the first n is dropped, those after them are dropped for that subscriber alone, Send neither waits nor fails, and the kept ones are written in order once it reads; afterwards there is room for n again. The last successful SetOption before the subscriber connects counts, whether it raises or lowers the mark.",
 ["schedules","configurations"],"all HWM values and schedules",
 "A test samples one mark and one speed.",
 ["pub.go"],[("channel capacity, non-blocking send","pub.go pubMWriter.addConn, pubMWriter.write"),("SetOption","pub.go")])
p("C40","The message queue is a FIFO of any length",
 "The exported message queue (NewQueue, Push, Pop, Peek, Len, Init) holds the messages in the order they were pushed, with their contents: Peek returns the oldest one pushed and not yet popped, and reports that there is none exactly when the queue is empty; Pop removes that one; Len is the number pushed and not popped; Init empties the queue, which can be used again. This holds for any sequence of operations of any length, in particular across the sizes at which the queue changes its representation.",
 ["histories"],"all operation sequences",
 "Tests push a bounded number.",
 ["queue.go"],[("chunked list","queue.go")])
p("C41","A socket goes on with the connections that are left",
 "When a connection of a socket with several is lost, the others stay in service: the next messages given to Send and SendMulti (PUSH, DEALER, PAIR, ROUTER, PUB, XPUB, XSUB) are written, without waiting and without an error, to connections that are left (ROUTER: to the peer named; PUB and XPUB: to every subscriber that is left), at most once to each, and to none that was lost; what the peers that are left send is received (PULL, SUB, XSUB, DEALER, ROUTER, PAIR, XPUB), each message once and in order, and a message that was read from a connection before it was lost is still received. The same holds once another connection was made, and when all connections were lost and a new one was made. (REQ and REP: C23.)",
 ["histories","faults"],"all messages, losses of any connection, sequences of losses and connections",
 "Tests rarely break a connection of several, and sample one history.",
 ["msgio.go","router.go","pub.go","socket.go"],[("qreader.rmConn, mwriter.rmConn, semaphore","msgio.go"),("routerQReader.rmConn, routerMWriter.rmConn","router.go"),("pubQReader.rmConn, pubMWriter.rmConn","pub.go"),("socket.addConn, socket.rmConn","socket.go")])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
