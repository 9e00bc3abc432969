import json
MAP={'message sequences': 'inputs', 'segmentation': 'fault_sequences', 'connection break points': 'crash_points', 'backpressure histories': 'histories', "other connections' failures": 'fault_sequences', 'timing of data after the handshake': 'histories', 'failure points': 'crash_points', 'connect outcomes': 'fault_sequences', 'attempt interleavings': 'histories', 'random nonces': 'inputs', 'faults': 'fault_sequences', 'failure histories': 'fault_sequences', 'retry settings': 'configurations', 'silent failure times': 'crash_points', 'delays': 'fault_sequences', 'ping and timeout settings': 'configurations', 'remote identities and claims': 'inputs', 'membership changes': 'histories', 'disconnection points': 'crash_points', 'send times': 'histories', 'request sequences': 'programs', 'byte sequences': 'inputs', 'connection patterns': 'histories', 'corruption positions': 'fault_sequences', 'sizes': 'inputs', 'queue states': 'histories', 'block boundaries': 'configurations', 'operation sequences': 'programs', 'burst sizes': 'configurations', 'callback outcomes': 'programs', 'system call errors': 'fault_sequences', 'stop times': 'crash_points', 'system call failures': 'fault_sequences', 'connect and disconnect histories': 'histories', 'address reuse': 'inputs', 'timer programs': 'programs', 'clock advances': 'fault_sequences', 'readiness times': 'histories'}
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=[obs]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":list(dict.fromkeys(MAP.get(o,o) for o in over)),"text":qtext},"why_tests_cant":why,"anchors":a})
CONN=["include/salticidae/conn.h","src/conn.cpp"]
NET=["include/salticidae/network.h"]
p("C01","Messages on a connection arrive intact, in order and at most once",
 "For every connection, what the receiving handlers see from each sending thread is a gap-free prefix of the messages that thread successfully sent on the other end: opcode and payload unchanged, no duplicate, no reordering, nothing invented. This holds for every segmentation, short read or write, backpressure, interleaving of concurrent senders with the network threads, and wherever the connection breaks.",
 ["schedules","message sequences","segmentation","connection break points"],
 "all interleavings of sender, worker, dispatcher and user threads; all message sizes from empty to the configured maximum; all chunk sizes, buffer limits and socket buffer sizes; all break points",
 "the suite sends a few fixed-size messages over loopback, where short writes, tiny segments, full buffers and unlucky interleavings practically never happen",
 CONN+NET+["include/salticidae/buffer.h","include/salticidae/queue.h","include/salticidae/msg.h"],
 [("send path","src/conn.cpp ConnPool::Conn::_send_data"),("receive path","src/conn.cpp ConnPool::Conn::_recv_data"),("framing","include/salticidae/network.h MsgNetwork::on_read"),("send queue","include/salticidae/buffer.h MPSCWriteBuffer")],
 obs="message handlers registered with reg_handler/set_handler")
p("C02","Accepted messages are delivered without needing further traffic",
 "While a connection stays up and the receiving application keeps running its loop, every message whose send call reported success is eventually given to the receiver's handler, with no later send or receive needed to push it out, and the library closes no connection that neither side, an error nor the network asked it to close. This holds after any backpressure: full socket buffers, a full bounded send buffer (where the send call reports refusal instead of losing the message), a full receive buffer or a full incoming-message queue.",
 ["schedules","backpressure histories","configurations"],
 "all schedules, all buffer, queue and chunk size configurations, all stall and resume histories of either side",
 "a stall shows only when a buffer fills or a wake-up is lost at one particular point of an interleaving, and a test cannot tell slow from stuck",
 CONN+NET+["include/salticidae/event.h","include/salticidae/buffer.h","include/salticidae/queue.h"],
 [("write readiness tracking","src/conn.cpp _send_data / include/salticidae/conn.h Worker::enable_send_buffer"),("receive backpressure","src/conn.cpp _recv_data, MsgNetwork::on_read"),("incoming queue backpressure","include/salticidae/network.h MsgNetwork::on_worker_setup"),("wake-up flag","include/salticidae/event.h MPSCQueueEventDriven")])
p("C03","TLS connections give the same message guarantees as plain ones",
 "On a TLS connection messages arrive intact, in order, at most once and gap-free per sending thread, and while the connection stays up every accepted message is eventually delivered without further traffic. Backpressure, tiny segments, handshake records mixed with data, or failures of other TLS connections served by the same process never break a healthy TLS connection.",
 ["schedules","segmentation","backpressure histories","other connections' failures"],
 "all schedules and segmentations of the TLS byte stream, all socket buffer sizes, all failure histories of the other connections of the process",
 "loopback tests never make a TLS write block half way and never mix failing and healthy handshakes on one worker thread",
 CONN+["include/salticidae/crypto.h"],
 [("TLS send/receive","src/conn.cpp _send_data_tls, _recv_data_tls"),("handshake","src/conn.cpp _recv_data_tls_handshake"),("OpenSSL wrapper","include/salticidae/crypto.h TLS")])
p("C04","No TLS message is delivered before the connection is vetted",
 "With TLS enabled, no message from a connection reaches a handler before the connection callback has accepted that connection, and when the callback refuses it, none ever does and the connection is closed. The certificate shown to the callback is the one the remote end actually proved to own, and a certificate that the configured verification rejects never leads to a connection.",
 ["schedules","timing of data after the handshake"],
 "all schedules, all arrival times of application data relative to the handshake and to the callback's verdict",
 "needs data to arrive in the window between the end of the handshake and the verdict of the callback, which runs in another thread",
 CONN+["include/salticidae/crypto.h"],
 [("verdict","include/salticidae/conn.h ConnPool::update_conn"),("receive gate","src/conn.cpp _recv_data_dummy"),("certificate","src/conn.cpp _recv_data_tls_handshake")])
p("C05","Connection callbacks are paired, ordered and single-threaded",
 "Every connection object gets at most one 'connected' callback and, once it ends for whatever reason, exactly one 'disconnected' callback, always after the 'connected' one if there was one. All callbacks run one at a time on the thread of the event loop given by the user, and while the network runs every connection attempt ends in either 'connected' or 'disconnected' within its configured timeout (which applies to the TCP attempt and again to a TLS handshake) plus scheduling delay.",
 ["schedules","failure points","connect outcomes"],
 "all schedules, all points at which either end or the network breaks the connection or the user terminates it, all outcomes and delays of a connection attempt",
 "double, missing or swapped callbacks need termination to race with establishment across three threads",
 CONN,
 [("callback dispatch","include/salticidae/conn.h ConnPool::update_conn"),("termination","src/conn.cpp worker_terminate, disp_terminate, del_conn"),("connect attempt","src/conn.cpp _connect, conn_server")])
p("C06","Two peers settle on exactly one common connection",
 "When two peers know each other and at least one of them keeps trying to connect, then once faults stop they both report being connected, and stay so, through the two ends of one and the same connection, in whatever way simultaneous attempts, stale connections and nonce values interleave. Neither side ever considers more than one connection as the live one for a peer: no second 'connected' peer callback without a 'disconnected' one for the first connection in between, and none twice for one connection.",
 ["schedules","attempt interleavings","random nonces","faults"],
 "all interleavings of simultaneous and repeated connection attempts on both sides, all nonce values including ties, all connection losses and restarts before the network becomes stable",
 "simultaneous open with particular nonces and handshake message timing happens rarely on loopback and cannot be forced by a test",
 NET,
 [("handshake","include/salticidae/network.h PeerNetwork::ping_handler, pong_handler"),("choice","include/salticidae/network.h PeerNetwork::finish_handshake"),("retry","include/salticidae/network.h PeerNetwork::start_active_conn, conn_peer, on_dispatcher_teardown")])
p("C07","Peer connections are retried as requested, and only as requested",
 "With unlimited tries a peer connection that breaks or cannot be set up is attempted again until it is established, whatever the cause of the failure. With a limited number of tries a request makes no more than that many attempts, and exactly that many if they all fail; after an established connection is lost the count starts anew (for a count of n, n - 1 attempts to get it back, the lost connection counting as one). Giving up (zero tries) or removing the peer stops further attempts.",
 ["schedules","failure histories","retry settings"],
 "all histories of refused, timed-out, lost and replaced connections, all retry counts, and all times at which the user changes the policy or removes the peer",
 "tests only watch a few reconnects; exhaustion of the retry budget and losing an attempt to a race need controlled time and failures",
 NET,
 [("retry policy","include/salticidae/network.h PeerNetwork::conn_peer, on_dispatcher_teardown, start_active_conn"),("removal","include/salticidae/network.h PeerNetwork::del_peer")])
p("C08","Dead peers are noticed in time; healthy idle peers are kept",
 "If the remote side of an established peer connection silently stops responding, the local side reports the disconnection within the configured ping period (with its randomisation) plus the connection timeout plus scheduling delay. As long as both sides and the network keep working and the timeout exceeds the randomised ping period (up to 1.5 times its setting) plus delays, the heartbeat never tears the connection down, however long it stays idle or busy, and it sends no more than one ping per period.",
 ["silent failure times","delays","ping and timeout settings"],
 "all times of a silent crash or partition relative to the ping/pong exchange, all period/timeout settings with period below timeout, all message delays well below the timeout",
 "needs silent partitions and minutes of controlled time",
 NET,
 [("heartbeat","include/salticidae/network.h Peer::ping_timer, Peer::send_ping, pong_handler"),("timeout","include/salticidae/network.h tcall_reset_timeout, on_worker_setup")])
p("C09","Only known peers become connected, under their own identity",
 "A remote whose identity (certificate under certificate-based identity, claimed address under address-based identity) is not registered never becomes a connected peer: its connection is closed and the unknown-peer callback reports it. With certificate identity a connected peer always holds the certificate that its peer id stands for, even if it answers at another peer's address, messages are never attributed to a different peer, and removing a peer ends its connection.",
 ["schedules","remote identities and claims","membership changes"],
 "all claimed addresses and certificates, all interleavings of handshakes with adding and removing peers",
 "tests only use honest, registered peers",
 NET,
 [("identity","include/salticidae/network.h PeerNetwork::get_peer_id"),("unknown peers","include/salticidae/network.h ping_handler, pong_handler, on_dispatcher_setup")])
p("C10","Messages addressed to a peer survive reconnection uncorrupted",
 "Messages sent to a peer id while it is disconnected, or queued when its connection broke, are sent over the next connection to that peer, and across any number of reconnections the receiver never sees a corrupted or duplicated message, nor (per sending thread, within one connection) a reordered one. Only messages handed over to a connection before it broke may be lost, and once the peer stays connected every message sent since is delivered, a multicast one exactly once to each peer it was addressed to.",
 ["schedules","disconnection points","send times"],
 "all points at which a connection breaks relative to the transmission of each message, all interleavings of senders with a reconnection",
 "the corruption needs a break in the middle of a message and a sender racing with the switch to the new connection",
 NET+["include/salticidae/buffer.h"],
 [("hand-over","include/salticidae/network.h PeerNetwork::finish_handshake"),("peer addressed send","include/salticidae/network.h PeerNetwork::_send_msg")])
p("C11","Every asynchronous request reports its outcome exactly once",
 "An asynchronous request (connect, deferred or multicast send, add, remove or address or connect a peer) that fails reports exactly one error carrying its own request id to the error callback, and one that succeeds reports none for its id. Blocking calls (including the queries for a peer's connection, the known peers and the number of pending connections) return the true answer or throw the error, whatever else is going on, and requests from one thread take effect in the order they were made.",
 ["schedules","request sequences"],
 "all sequences of valid and invalid requests from several threads, all interleavings with connection events",
 "needs concurrent requests from many threads and a reference model of the membership to compare against",
 NET+["include/salticidae/conn.h","include/salticidae/event.h"],
 [("request ids","include/salticidae/conn.h gen_async_id, recoverable_error"),("peer requests","include/salticidae/network.h add_peer, del_peer, set_peer_addr, conn_peer, multicast"),("blocking calls","include/salticidae/event.h ThreadCall::call")])
p("C12","A hostile remote can harm nothing but its own connection",
 "Whatever bytes a remote sends and however it opens, stalls, resets or closes its connections, the process does not crash, abort or stop, no fatal error is raised, and other connections and peers keep working. In particular malformed frames, unexpected or ill-timed handshake and heartbeat messages, truncated payloads and broken TLS handshakes affect at most the connection they came on. (Under address-based identity a remote claiming a registered peer's address is indistinguishable from that peer; there the process and the unrelated connections survive, and the honest peers connect again once the impostor is gone.)",
 ["byte sequences","schedules","connection patterns"],
 "all byte streams and connection open/close patterns of a remote without valid credentials, interleaved with honest traffic",
 "tests only contain well-behaved remotes",
 NET+CONN+["include/salticidae/msg.h","include/salticidae/stream.h","include/salticidae/crypto.h"],
 [("framing","include/salticidae/network.h MsgNetwork::on_read"),("handler errors","include/salticidae/network.h MsgNetwork::reg_handler"),("peer protocol","include/salticidae/network.h ping_handler, pong_handler")])
p("C13","Corrupt or oversized messages are rejected, intact ones still arrive",
 "A message whose payload does not match its checksum never reaches a handler, and the intact messages around it on the same connection are still delivered in order without waiting for further traffic. A message longer than the configured maximum never reaches a handler: its connection is closed and an error is reported, whatever the state of buffers and queues at that moment. A message whose payload its message type cannot parse is never given to its handler, and its connection is closed.",
 ["corruption positions","sizes","segmentation","queue states"],
 "all positions of corrupted payloads and oversized headers in a stream, all segmentations, and all fill levels of the receive buffer and incoming queue",
 "depends on how corrupted and intact frames share a read, and on the queue being full at that moment",
 NET+["include/salticidae/msg.h"],
 [("limits and checksums","include/salticidae/network.h MsgNetwork::on_read"),("retry when queue is full","include/salticidae/network.h MsgNetwork::on_worker_setup"),("checksum","include/salticidae/msg.h MsgBase::verify_checksum")])
p("C14","The lock-free queues lose, duplicate or reorder nothing",
 "For every interleaving of concurrent producers and consumers each successfully enqueued item is dequeued exactly once, items of one producer come out in order, a refused enqueue leaves no trace, and no item is lost or invented when blocks are recycled. A bounded enqueue on a queue with free capacity succeeds, and the event-driven variants never miss a wake-up: once producers stop, every item is consumed.",
 ["schedules","block boundaries","operation sequences"],
 "all interleavings of enqueue, dequeue and rewind at the granularity of single memory accesses, including spurious failures of weak compare-exchange, at all block boundaries",
 "the failing interleavings are a few instructions wide and need blocks to be recycled at that moment",
 ["include/salticidae/queue.h","include/salticidae/event.h"],
 [("free list","include/salticidae/queue.h FreeList"),("MPMC queue","include/salticidae/queue.h MPMCQueue"),("MPSC queue","include/salticidae/queue.h MPSCQueue"),("event-driven variants","include/salticidae/event.h MPSCQueueEventDriven, MPMCQueueEventDriven")],
 hook="block size constant made overridable")
p("C15","Cross-thread calls run exactly once, in order, on the loop's thread",
 "Every call submitted to an event loop from any thread runs exactly once, on that loop's thread, in the order in which its submitting thread submitted it. A blocking call returns only after the callee ran, with exactly its result or its exception, however submissions interleave and whatever the burst setting; once the call queue has been stopped, blocking calls fail with an error and nothing submitted runs any more.",
 ["schedules","burst sizes","callback outcomes"],
 "all interleavings of any number of submitting threads with the loop, all burst sizes, calls that return, throw, or submit further calls",
 "lost wake-ups and lifetime races of the completion notifier need particular interleavings",
 ["include/salticidae/event.h","include/salticidae/queue.h"],
 [("call queue","include/salticidae/event.h ThreadCall"),("completion","include/salticidae/event.h ThreadNotifier"),("wake-up","include/salticidae/event.h MPSCQueueEventDriven, NotifyFd")])
p("C16","Sockets and connection objects are released exactly once",
 "The library closes every descriptor it opens exactly once and never touches a descriptor after closing it, so a recycled descriptor number is never disturbed. When all connections have ended and the application dropped its references, every connection object has been destroyed; after the network is destroyed no descriptor remains open, whatever failures or system-call errors occurred on the way.",
 ["schedules","failure points","system call errors"],
 "all schedules and all points at which connections fail, including failures of the system calls that set a socket up",
 "leaks and double closes are invisible to functional tests and need failures at awkward points",
 CONN+NET+["include/salticidae/event.h","include/salticidae/ref.h"],
 [("close","src/conn.cpp release_conn, del_conn"),("accept and connect set-up","src/conn.cpp accept_client, _connect, _listen"),("event handles","include/salticidae/event.h FdEvent, TimerEvent")])
p("C17","Stopping or destroying a network is always possible and final",
 "Stopping a network returns in bounded time at any moment (idle, under load, during connection set-up, with faulty remotes) and afterwards no message handler of that network runs; once it is destroyed none of its callbacks runs at all. Stopping and destroying it never crashes the process, touches freed memory or kills it by a signal.",
 ["schedules","stop times"],
 "all moments of the stop relative to all activity of the network threads and remotes",
 "tests stop an idle network once, at the end",
 CONN+NET+["include/salticidae/event.h"],
 [("stop","include/salticidae/conn.h ConnPool::stop_workers, stop"),("destruction","include/salticidae/network.h ~MsgNetwork, ~PeerNetwork; include/salticidae/event.h _event_context_deleter")])
p("C18","Transient system-call failures do not disable the network",
 "After any burst of transient failures of socket, accept, setsockopt, fcntl, connect, bind or event-descriptor calls, the network keeps running: failed requests are reported, existing connections are unaffected, and once the failures stop new connections can be made and accepted again on the same listening address.",
 ["system call failures","schedules"],
 "all sequences of transient failures of the system calls used to set up connections, at all call occurrences",
 "tests cannot make the kernel fail an accept or a connect on demand",
 CONN,
 [("accept","src/conn.cpp accept_client"),("connect","src/conn.cpp _connect, conn_server"),("listen","src/conn.cpp _listen")])
p("C19","A client network reaches exactly the client at the given address",
 "A message sent to the address of a client with an established connection is delivered to that client and to nobody else, and a send to an address without a connection is reported as failed. This also holds when clients connect and disconnect concurrently, when an address is reused by a new connection, and when sends run in other threads.",
 ["schedules","connect and disconnect histories","address reuse"],
 "all histories of clients connecting, leaving and reusing addresses, interleaved with sends from any thread",
 "needs address reuse while the previous connection is still being torn down",
 NET,
 [("address table","include/salticidae/network.h ClientNetwork::on_dispatcher_setup, on_dispatcher_teardown"),("addressed send","include/salticidae/network.h ClientNetwork::_send_msg, _send_msg_deferred")])
p("C20","Shared references keep objects alive and free them exactly once",
 "An object held by thread-safe shared references is destroyed exactly once, after the last reference is gone and never earlier, for every interleaving of copies, moves, assignments and drops in different threads, and its bookkeeping is freed as well. A weak reference can be turned into a strong one exactly as long as the object is alive, and otherwise yields an empty one.",
 ["schedules"],
 "all interleavings of reference operations of several threads at the granularity of single memory accesses",
 "the race windows are single instructions wide",
 ["include/salticidae/ref.h"],
 [("atomic reference counts","include/salticidae/ref.h ARCCtl, RcObjBase"),("weak references","include/salticidae/ref.h WeakObjBase")])
p("C21","Timers and timed descriptor events fire when due, once, and not after cancel",
 "A timer fires once per arming, not before its delay has passed on the loop's clock (milliseconds, read once per loop iteration) and at the latest in the iteration after that, never after being cancelled or cleared, and re-arming replaces the earlier deadline. A timed descriptor event reports readiness or, if none occurs within the delay, a timeout, never both for one waiting period and nothing after it was cancelled or cleared, including when events are cancelled, re-armed, moved or destroyed from within callbacks.",
 ["timer programs","clock advances","readiness times"],
 "all programs of arm, cancel, re-arm, move and destroy actions performed inside and outside callbacks, all clock advances and readiness times",
 "needs exact control over the clock and coincidences of deadlines and readiness",
 ["include/salticidae/event.h"],
 [("timers","include/salticidae/event.h TimerEvent"),("timed descriptor events","include/salticidae/event.h TimedFdEvent"),("descriptor events","include/salticidae/event.h FdEvent")])
p("C22","What a connection reports about itself is true",
 "Direction, address, termination state, certificate and traffic counters of a connection object are true at all times: it was opened by the side it says, names the remote endpoint it is connected to, reports itself terminated only once it has ended or been asked to end and always afterwards, and its counters equal the messages and bytes its handlers received since they were last cleared and, for sending, cover every accepted message and none that was not sent at all.",
 ["schedules","failure points"],
 "all schedules of reads of these values with traffic, termination and reconnection, all connection outcomes",
 "tests never look at the counters or at a connection object after it has ended",
 CONN+NET,
 [("state","include/salticidae/conn.h ConnPool::Conn"),("statistics","include/salticidae/network.h MsgNetwork::Conn get_nsent, get_nrecv, clear_msgstat")])
p("C23","A receiver that does not keep up costs its peers only bounded memory",
 "When an application does not handle its messages, the library stops reading from its connections once the configured receive and queue limits are used up, and with a configured send buffer limit the sender's send call reports failure once that limit is used up; refused messages leave nothing behind. Meanwhile the opposite direction of the same connections, all other connections and the threads involved go on. As soon as the application continues, every accepted message is delivered, unchanged and once, and new messages are accepted again; a node whose buffers are full can still be stopped.",
 ["backpressure histories","schedules","configurations"],
 "all fill levels of the send queue, socket buffers, receive buffer and incoming queue, all limits and chunk sizes, all histories of stalling and continuing",
 "the suite never has a receiver that stands still, and unbounded growth shows only under sustained overload",
 CONN+NET+["include/salticidae/buffer.h","include/salticidae/queue.h"],
 [("pausing","src/conn.cpp _recv_data, _recv_data_tls; include/salticidae/network.h on_recv_full"),("resuming","include/salticidae/network.h MsgNetwork::on_read, on_worker_setup"),("bounded sending","include/salticidae/conn.h Conn::write; include/salticidae/queue.h set_capacity")])
p("C24","The C interface gives the same guarantees",
 "A program using the C functions gets what the C++ interface promises: messages sent over message, peer and client networks arrive unchanged, in order and at most once, and those reported as accepted arrive while the connection stays up; results and error codes of the functions are true; connection, peer and error callbacks report what happened with the context pointer they were registered with; data streams, byte arrays, hashes, addresses, event loops, timers, thread calls and queues behave like their C++ counterparts; every object is freed exactly once by its free function.",
 ["schedules","operation sequences","failure points"],
 "all programs of C calls for the three kinds of network, with and without TLS, under all schedules and connection failures",
 "the suite has no test that calls the C functions",
 ["src/conn.cpp","src/network.cpp","src/stream.cpp","src/event.cpp","src/msg.cpp","src/netaddr.cpp","src/crypto.cpp","src/util.cpp"],
 [("networks","src/network.cpp"),("streams","src/stream.cpp"),("messages","src/msg.cpp"),("events","src/event.cpp")])
p("C25","Serialized data are read back as written, malformed data are refused",
 "Whatever integers, strings, byte arrays, hashes, bit arrays and addresses are put into a message, the receiving handler reads back equal values in the same order, through copies, moves, hexadecimal forms and partial reads of the stream. Reading a value of which not all bytes are present, whatever length the data announce, throws an exception and never yields a value, reads outside of the data or allocates more than the data can hold; the same holds for malformed hexadecimal strings.",
 ["message sequences","corruption positions","segmentation"],
 "all sequences of fields with all values and sizes, and all truncations and corruptions of the serialized bytes",
 "the suite serializes a handful of values and never reads truncated or hostile ones",
 ["include/salticidae/stream.h","include/salticidae/msg.h","include/salticidae/netaddr.h"],
 [("streams","include/salticidae/stream.h DataStream"),("fixed-size values","include/salticidae/stream.h Blob, _Bits"),("addresses","include/salticidae/netaddr.h NetAddr::serialize, unserialize"),("messages","include/salticidae/msg.h")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
