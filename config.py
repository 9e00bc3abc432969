"""What each property's check runs.  runs: (harness, scenario, variant, time share)."""
Q, T = 50, 900
ASSUME = ['interleavings are sequentially consistent (no weak-memory reordering)',
          'preemption points: every memory access and atomic of instrumented library and scenario code, every mutex/condvar operation and every system call',
          'the simulated TCP/epoll/eventfd kernel behaves like Linux for the calls the library makes']
SIMSTUB = ['threads (fibers under a seeded scheduler)', 'clock', 'heap (checked arena)', 'kernel: TCP, epoll, eventfd, pipe, descriptors', 'randomness (rand, OpenSSL RAND)']
LIB = ['all of src/*.cpp and include/salticidae/*.h (instrumented)', 'libuv', 'OpenSSL']
def msg(*variants): return [('msg', 'msg', v, w) for v, w in variants]
def peer(*variants): return [('peer', 'peer', v, w) for v, w in variants]
def hostile(*variants): return [('hostile', 'hostile', v, w) for v, w in variants]
def chk(tags, runs, **kw):
    d = dict(tags=tags, runs=runs, wall=dict(quick=Q, thorough=T), real=LIB, stub=SIMSTUB); d.update(kw); return d
CHECKS = {
    'C01': chk(['C01'], msg((0, 3), (2, 1), (4, 1))),
    'C02': chk(['C02'], msg((0, 4), (2, 1))),
    'C03': chk(['C03'], msg((1, 4), (3, 1))),
    'C04': chk(['C04'], msg((1, 3), (5, 1))),
    'C05': chk(['C05'], msg((0, 2), (1, 2), (2, 1), (4, 1))),
    'C06': chk(['C06'], peer((0, 3), (1, 2), (2, 2), (3, 1)) + [('peer', 'simul', 0, 2), ('peer', 'simul', 1, 1)]),
    'C07': chk(['C07'], peer((0, 1), (1, 1), (2, 3), (3, 1)) + [('peer', 'retry', 0, 3), ('peer', 'retry', 1, 1)]),
    'C08': chk(['C08'], peer((0, 3), (1, 2), (2, 1)) + [('peer', 'retry', 0, 1), ('peer', 'simul', 0, 1)]),
    'C09': chk(['C09'], peer((0, 1), (1, 2), (2, 1), (3, 3)) + hostile((0, 1), (1, 2))),
    'C10': chk(['C10'], peer((0, 4), (1, 2), (2, 1))),
    'C11': chk(['C11'], peer((2, 3), (3, 1)) + msg((0, 1), (2, 1))),
    'C12': chk(['C12'], hostile((0, 3), (1, 3))),
    'C13': chk(['C13'], hostile((0, 4), (1, 1))),
    'C14': chk(['C14'], [('queue2', 'queue', 0, 1), ('queue5', 'queue', 0, 1)],
               real=['include/salticidae/queue.h', 'event-driven queues of include/salticidae/event.h', 'libuv']),
    'C15': chk(['C15'], [('tcall', 'tcall', 0, 1)], real=['ThreadCall and everything below it in include/salticidae/event.h, queue.h', 'C bindings of src/event.cpp', 'libuv']),
    'C16': chk(['C16'], msg((2, 2), (3, 2), (4, 1), (5, 1))),
    'C17': chk(['C17'], msg((4, 2), (5, 2), (6, 1), (7, 1))),
    'C18': chk(['C18'], msg((2, 2), (3, 2))),
    'C19': chk(['C19'], [('client', 'client', 0, 3), ('client', 'client', 1, 1)]),
    'C20': chk(['C20'], [('ref', 'ref', 0, 1)], real=['include/salticidae/ref.h']),
    'C21': chk(['C21'], [('tcall', 'timer', 0, 1)], real=['TimerEvent, FdEvent, TimedFdEvent of include/salticidae/event.h', 'C bindings of src/event.cpp', 'libuv']),
    'C22': chk(['C22'], msg((0, 3), (1, 2), (2, 1), (4, 1))),
    'C23': chk(['C23'], [('flood', 'flood', 0, 3), ('flood', 'flood', 1, 2)]),
    'C24': chk(['C24'], [('capi', 'capi', v, 1) for v in range(6)]),
    'C25': chk(['C25'], [('wire', 'wire', 0, 1)]),
}
KNOWN = []
# (property, subject of the fix: commit, what failed)
FIXED = [
    ('C14', 'MPMCQueue dequeue could use a block recycled before its reference was taken', 'a dequeue holding a stale head block that was recycled in the meantime reported an empty queue or took items out of order'),
    ('C02', 'a full receive buffer could stall a connection forever', 'receive buffer full of small segments of an incomplete message, or of messages nobody consumes: reading stopped and was never resumed'),
    ('C02', 'writing an empty segment blocked the data queued after it', 'Conn::write() of an empty byte array: later data stayed in the send buffer until another write'),
    ('C13', 'oversized message after a full incoming queue ended the process', 'oversized header processed after waiting for a full incoming queue: exception left the event loop callback, std::terminate'),
    ('C13', 'a corrupt message held up the intact ones received after it', 'a message with a wrong checksum: the complete messages behind it were delivered only after further traffic'),
    ('C05', 'terminating a connection while it is handed to a worker', 'terminate() of a connection being established: closed descriptor given to a worker, connected after disconnected'),
    ('C16', 'socket leak when setting up a new connection fails', 'setsockopt/fcntl failing on a new socket left it open'),
    ('C18', 'a failed accept() disabled listening for good', 'one transient accept() error and the network never accepted again'),
    ('C17', 'stop() of a TLS network could end the process by SIGPIPE', 'stop() with a TLS connection reset by the remote: TLS shutdown raised SIGPIPE in the calling thread'),
    ('C03', 'TLS connections were closed when the socket buffer got full', 'SSL_write retried with a moved buffer after WANT_WRITE: bad write retry, connection closed'),
    ('C03', 'errors of one TLS connection were taken for errors of another', 'stale OpenSSL error queue of a failed connection closed healthy ones of the same worker'),
    ('C05', 'a TLS handshake that never completes kept the connection forever', 'remote accepts the TCP connection but never completes the TLS handshake: neither connected nor disconnected'),
    ('C06', 'detach a replaced outbound connection from its peer', 'teardown of an outbound connection replaced by the retry timer, conn_peer() or a late pong: assertion failure, stale reset of the handshake, or access to a removed peer'),
    ('C06', 'do not abort or diverge on an unusable handshake reply', 'pong on a connection to another address than the current one (set_peer_addr, manual connect, foreign certificate): assertion failure; pong while already connected: the two sides stayed with different connections; manual connection to a known peer taken as peer connection'),
    ('C07', 'respect the number of tries given to conn_peer()', 'conn_peer(ntry=1) to an unreachable peer: attempts went on forever; to a connected peer: none was made; set_peer_addr(null) while retrying: assertion failure'),
    ('C12', 'only accept heartbeat pongs on the established peer connection', 'heartbeat pong before the handshake has finished: uninitialised flags, null dereference'),
    ('C07', 'keep retrying after a preempting inbound handshake', 'inbound handshake preempting the established connection fails: the peer was never contacted again; conn_peer() before the deferred handshake: null dereference'),
    ('C06', 'become passive upon conn_peer(ntry = 0)', 'peer that gave up its retries kept a random nonce and went on rejecting the remote'),
    ('C10', 'exclude senders while a peer connection is being replaced', 'send to a peer racing with the hand-over to a new connection: message accepted but lost, torn reference'),
    ('C11', 'get_npending() returned a boolean', 'get_npending() with more than one pending connection'),
    ('C10', 'do not send the rest of a message over a new peer connection', 'connection broken in the middle of a message: the rest was sent first on the next connection, corrupting its framing; messages beyond the send buffer limit dropped'),
    ('C08', 'a full send buffer must not suppress the heartbeat', 'bounded send buffer full at the time of a ping or pong: no further heartbeat, connection to a healthy peer torn down'),
    ('C12', 'reject a second handshake on the connection of a peer', 'a remote registered as one peer sends a second handshake claiming another peer on the same connection: assertion failure'),
    ('C20', 'leak of the control block of a shared reference', 'last strong and last weak reference dropped concurrently: control block never freed'),
    ('C20', 'a weak reference could revive a destroyed object', 'weak reference upgraded while the last strong one is dropped: reference to a destroyed object'),
    ('C19', 'protect the client table of ClientNetwork', 'send to an address racing with clients connecting or leaving: use after free in the address table'),
    ('C19', 'a closed connection removed the client that reuses its address', 'client reconnecting from the same address while its old connection is torn down became unreachable'),
    ('C19', 'an older connection replaced the client that reuses its address', 'old, dead connection set up after the newer one from the same address: the connected client became unreachable'),
    ('C19', 'report a refused deferred send to a client', 'deferred send refused by a full send buffer reported no error'),
    ('C01', 'msg_magic() of the network configuration returned nothing', 'configuring a message magic: control ran off the end of the function'),
    ('C04', 'the TLS certificate check could not be enabled', 'tls_skip_ca_check(false): certificates that the verification rejects were accepted'),
    ('C24', 'C interface reported refused messages as sent', 'peernetwork_send_msg/clientnetwork_send_msg: true for a message that was not accepted'),
    ('C24', 'datastream_get_*() always reported success', 'C interface: reading beyond the end of a data stream reported success'),
    ('C24', 'moving the bytes out of a DataStream brought back the ones already read', 'bytearray_t conversion of a partly read stream that is moved from: it includes what was read already; payload of a C message'),
    ('C25', 'a failed get_data_inplace() moved the stream past its end', 'get_data_inplace() with a length beyond the end (or near SIZE_MAX, which was accepted): later reads outside of the buffer'),
    ('C25', 'null Bits had uninitialised sizes', 'copying or serializing a default-constructed Bits'),
    ('C25', 'Bits::load() lost the high bits of each word', 'Bits constructed from more than 3 bytes'),
    ('C25', 'Bits::unserialize() trusted the length it was given', 'Bits read from a few bytes that announce a huge length: gigabytes allocated, or a size beyond the data'),
    ('C25', 'load_hex() accepted strings that are not hexadecimal', 'from_hex("1g"), from_hex("+1")'),
]
NA = {}
