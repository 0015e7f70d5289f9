#!/usr/bin/env python3
# Writes properties.jsonl (kept as a generator so the text stays reviewable).
import json, os
P=[]
def prop(id,title,stmt,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(obs),hook_needed=None)))
S='source/'
RB=[S+'cyCore/core/cyc_ring_buf.h',S+'cyCore/core/cyc_ring_buf.cpp']
prop('C01','Ring buffer is a lossless FIFO byte stream across wrap and growth',
 'Bytes appended to a RingBuf come out of it exactly once, unaltered and in order, through any mix of copy-out, discard and move-to-another-buffer, no matter how the content wraps or how often the buffer grows. Size, free size, empty, full and capacity always agree with the content, a short copy-out, move or discard transfers exactly what is present, and asking for a capacity yields at least that capacity without disturbing the content.',
 ['inputs','histories'],'every sequence of appends, reads, discards, moves, resets and resizes of any size on buffers of any initial capacity',
 'The tests drive one or two hand-picked wrap positions and sizes; wrap position x growth x operation order is a large space they sample at a few points.',
 RB,[('two index circular array, one slot sacrificed','cyc_ring_buf.cpp memcpy_into/memcpy_out/moveto/discard'),('power-of-two reallocation preserving content','RingBuf::resize')],
 [('content','the bytes written and not yet consumed','RingBuf')],['return values and content of every public call'])
prop('C02','Ring buffer views report the true content and never consume it',
 'Peeking, searching for a byte, computing a checksum and normalizing a RingBuf report exactly the logical content at the given offset, clipped to what is present for every offset and count however large, and leave the content unchanged. A search returns the offset, from the start of the content, of the first match at or after the requested offset, or -1 when there is none.',
 ['inputs','histories'],'every reachable buffer layout and every offset, count and searched byte',
 'The tests check views at a handful of layouts; the interesting cases are match at the very start, ranges crossing the wrap, and out of range or huge arguments.',
 RB,[('logical to physical offset mapping modulo the allocation','RingBuf::peek/search/checksum/normalize')],(),['return values of peek/search/checksum/normalize'])
prop('C03','Ring buffer socket transfer neither loses nor invents bytes',
 'Filling a RingBuf from a descriptor and draining it to a descriptor move exactly the number of bytes they report, in stream order, for every split the kernel chooses. End of file and errors are reported as such and leave the content untouched, a short write keeps exactly the unsent tail, and without the extra-read option nothing beyond the free space is consumed from the descriptor.',
 ['inputs','histories','fault_sequences'],'every buffer layout, pending amount, kernel short read/write, EAGAIN, EOF and error sequence',
 'The tests use one socket pair with one amount of data; kernel splits and error returns at particular layouts never occur in them.',
 RB,[('scatter/gather over the free/used segments plus a stack overflow segment','RingBuf::read_socket/write_socket')],(),['return value, content afterwards, bytes seen by the peer'])
prop('C04','Lock-free queue is a linearizable bounded FIFO for many producers/consumers',
 'Under any number of concurrent producers and consumers every element whose push succeeded is popped at most once and none is lost, duplicated or invented, and there is one FIFO order of the operations consistent with their real-time order. A push fails only if the queue had no room at some moment of the call, a pop fails only if it held no completed element at some moment of the call, and when no operation is in progress the size is the number of elements held.',
 ['schedules','histories'],'every interleaving of concurrent push/pop/size calls for any queue size, including full and empty boundaries',
 'The stress tests sample a few million lucky interleavings on one machine with queues that are rarely near full; the narrow windows around full and empty need a particular pre-emption.',
 [S+'cyCore/core/cyc_lf_queue.h',S+'cyCore/core/cyc_atomic.h'],[('reserve / publish / consume counters advanced by compare-and-swap','LockFreeQueue::push/pop')],
 [('queue','elements pushed and not yet popped','LockFreeQueue')],['call and return of push/pop/size'])
prop('C05','Worker mailbox delivers every message exactly once, in order, without stalling',
 'Every message sent to a running worker thread is handed to its message callback exactly once, unaltered, on the worker thread, and messages from one sender (including a batch) arrive in the order sent. No accepted message waits forever: when the senders are done and the worker is idle nothing is left undelivered, whatever the interleaving of senders and worker.',
 ['schedules','histories'],'every interleaving of any number of senders (including the worker itself) with the worker loop',
 'The repository has no test of the worker mailbox; a lost wakeup needs one pre-emption between the drain and the re-arm of the wakeup flag.',
 [S+'cyEvent/event/cye_work_thread.h',S+'cyEvent/event/cye_work_thread.cpp',S+'cyCore/core/cyc_lf_queue.h'],[('wakeup flag + pipe byte + queue drain','WorkThread::_wakeup/_on_message')],
 [('mailbox','messages accepted and not delivered','WorkThread')],['send_message calls, on_message callbacks'])
prop('C06','Worker thread start-up and shutdown protocol',
 'Starting a worker returns only once its looper exists, the start callback runs exactly once on the worker thread before any message is delivered, and if that callback refuses, no message is ever delivered and the thread ends. After a stop request the thread ends, no callback runs after the join returns, and joining always returns.',
 ['schedules','histories','configurations'],'every interleaving of start, early sends, stop requests and join, with accepting and refusing start callbacks',
 'No test starts or stops a worker under contention; the protocol windows are a few instructions wide.',
 [S+'cyEvent/event/cye_work_thread.cpp',S+'cyEvent/event/cye_looper.cpp',S+'cyCore/core/cyc_system_api.cpp'],[('ready flag handshake, looper quit flag, thread join','WorkThread::start/_work_thread/join')],(),['start/join return, on_start/on_message callbacks'])
PK=[S+'cyEvent/event/cye_packet.h',S+'cyEvent/event/cye_packet.cpp']
prop('C07','Packet framing round-trips under any fragmentation',
 'A packet built from an id and up to two content parts carries exactly that id, the total size and the concatenated content, both fields big-endian on the wire; copies are equal and independent. Parsing a byte stream of such packets from a RingBuf or pipe yields the same packets in the same order however the stream is fragmented, and an incomplete packet in a RingBuf is reported as not available and consumes nothing.',
 ['inputs','histories'],'every id, head size, part sizes (0..65535, small and heap sized) and every fragmentation of a stream of packets',
 'The tests build two or three packets of fixed sizes; header split across reads, wrap inside the header and the small/heap boundary are not reached.',
 PK,[('length-prefixed header, peek before consume','Packet::build_from_ringbuf/build_from_pipe/build_from_memory/alloc_packet')],(),['packet accessors'])
LP=[S+'cyEvent/event/cye_looper.h',S+'cyEvent/event/cye_looper.cpp',S+'cyEvent/event/internal/cye_looper_epoll.cpp']
prop('C08','Event loop only dispatches registered, enabled, ready events',
 'A callback runs only for an event that is registered and enabled for that direction at that moment and whose own descriptor was reported ready while it was registered, with the id, descriptor and parameter it was registered with. Callbacks may register, enable, disable and delete any event, including themselves and events about to be dispatched, without a deleted, disabled or recycled event being called and without corrupting the running callback; ids of live events are distinct.',
 ['histories','inputs','fault_sequences'],'every sequence of registrations, enables, disables, deletions and descriptor readiness changes, inside and outside callbacks, with any number of events',
 'The tests register a few events and never mutate the registry during a dispatch round in which the mutated event is also ready.',
 LP,[('slot table with free list, ready lists filled per poll round','Looper::loop/step/_get_free_slot/delete_event')],
 [('registry','live event ids with descriptor, enabled directions and callbacks','Looper')],['callback invocations, registration calls'])
prop('C09','Event loop serves every ready enabled event, without starvation',
 'An event that is registered and enabled and whose descriptor is ready (readable, writable, hung up or in error) gets its callback within a bounded number of loop rounds, however many other events are ready and whatever callbacks do to them; the loop never goes to sleep while such an event exists. Reported enabled state always matches the last enable, disable or registration, and enabling from another thread wakes a sleeping loop.',
 ['histories','schedules','inputs'],'every registry and readiness history, more ready descriptors than one poll returns, enables from other threads',
 'The tests have at most a few descriptors ready at once and only check that callbacks happen at all.',
 LP,[('level-triggered epoll registration kept in step with the enabled mask','Looper_epoll::_update_channel_add_event/_update_channel_remove_event/_poll')],(),['callback invocations, is_read/is_write, polls'])
prop('C10','A stop request always ends the event loop promptly',
 'After a stop request from any thread at any time, before the loop starts, while it sleeps, during a callback, or concurrently with its start or end, the loop returns, runs no further callback once the request is visible at a callback boundary, and reports the request as pending. Returning from the loop leaves user events registered and the process consistent even if the requester is still inside its request.',
 ['schedules'],'every interleaving of stop requests with loop start, sleep, dispatch and exit',
 'Tests stop the loop only from inside a callback; the cross-thread windows around sleep and exit are never exercised.',
 LP,[('quit flag plus inner wakeup pipe','Looper::push_stop_request/_touch_inner_pipe/loop')],(),['loop return, callbacks after the request'])
prop('C11','Timers fire periodically, never early, and never after deletion',
 'A registered timer calls back with its id and parameter no earlier than one period after registration and keeps firing, once per elapsed period or fewer when the loop is late but never more, as long as it is registered. After it is deleted or disabled, including from its own or another callback of the same round, it does not fire, and a timer registered in its place fires only on its own schedule.',
 ['histories','schedules','inputs'],'every set of timers, periods, loop delays and create/delete/disable/enable histories',
 'The tests run three fixed timers on the wall clock and accept tolerances; deletion during a round with several expired timers is never exercised.',
 LP,[('timerfd per timer read on dispatch','Looper::register_timer_event/_on_timer_event_callback/delete_event')],(),['timer callbacks with virtual time'])
CN=[S+'cyNetwork/network/cyn_tcp_connection.h',S+'cyNetwork/network/cyn_tcp_connection.cpp']
prop('C12','Connection sends form one intact ordered byte stream',
 'The peer of a TCP connection receives a prefix of the concatenation, in some order, of whole messages passed to send; messages from one thread stay in order, messages of different threads are never interleaved inside one another, and nothing is duplicated or corrupted, whatever partial writes the kernel makes. While the connection stays open and the peer keeps reading, everything sent is eventually delivered, and completion is signalled only after everything sent before has been handed to the kernel.',
 ['schedules','histories','fault_sequences','inputs'],'every interleaving of senders on the loop thread and other threads with every pattern of short writes and would-block results',
 'No unit test sends through a connection at all; echo samples use the loopback kernel, which practically never writes short.',
 CN,[('direct write else locked buffer drained on writability','TcpConnection::send/_send/_on_socket_write')],
 [('unsent','bytes accepted and not written to the socket','TcpConnection')],['peer received bytes, send calls, on_send_complete'])
prop('C13','Connection close is graceful, reported once and final',
 'Shutting a connection down first delivers everything sent before the shutdown (while the peer is reading), then closes; a peer close, a reset or an error also closes it. Each connection reports its close exactly once, in its loop thread, in the disconnected state, no message or send-complete callback follows, its descriptor is released exactly once, and sends racing with or following the close are dropped without effect on anything else.',
 ['schedules','histories','fault_sequences'],'every interleaving of shutdown, sends from any thread, peer close, reset and write errors (including broken pipe)',
 'No test closes a connection with data pending, with concurrent senders, or after a reset.',
 CN+[S+'cyNetwork/network/cyn_tcp_server.cpp'],[('connected/disconnecting/disconnected state machine','TcpConnection::shutdown/_on_socket_close/_on_socket_write/_on_socket_error')],
 [('state','connected, disconnecting, disconnected','TcpConnection')],['on_close, state, descriptor closes, peer view'])
SV=[S+'cyNetwork/network/cyn_tcp_server.h',S+'cyNetwork/network/cyn_tcp_server.cpp',S+'cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp',S+'cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp']
prop('C14','Server gives every accepted connection one ordered, thread-affine life',
 'Every connection accepted by a server is assigned to one work thread in rotation and gets exactly one connected callback, then its received bytes in order through message callbacks, then at most one close callback, all on that thread and with a server-unique id. Bytes the peer sent before closing are delivered before the close callback, and asking the server to shut a connection down closes that connection and no other.',
 ['schedules','histories','configurations','fault_sequences'],'every interleaving of client connects, data, closes and resets with master and work threads, for any number of work threads',
 'No unit test runs a server; the samples exercise one client at a time by hand.',
 SV+CN,[('accept in master, hand-off message to a work thread, per-thread connection map','TcpServer::_on_accept_socket, TcpServerWorkThread::_on_workthread_message')],
 [('connections','accepted connections and their owner thread','TcpServer')],['listener callbacks'])
prop('C15','Server stop closes everything and always terminates',
 'After stop is called (from any thread but a work thread, where it is refused without side effects), the server stops listening, every connection it accepted gets its close callback exactly once, all its threads end and join returns, whatever connections, closes, commands or shutdown requests are in flight. No callback runs after join returns, and every descriptor the server accepted or opened has been closed.',
 ['schedules','histories','configurations'],'every interleaving of stop with accepts, hand-offs, closes, messages and shutdown requests',
 'No test stops a server while connections are being accepted or closed; the windows need a specific order of messages in two mailboxes.',
 SV,[('shutdown command per thread, quit when the connection map is empty','TcpServer::stop/join, TcpServerMasterThread/TcpServerWorkThread command handlers')],(),['join return, on_close counts, descriptor table'])
prop('C16','Server binding and per-port listening control',
 'Binding succeeds for a free address and fails cleanly for an occupied one, the reported bind address of each index is the one actually bound (including system-chosen ports) and a default address for an invalid index. Stopping listening on one index makes exactly that port refuse new connections while the others and existing connections keep working, at any time and however often it is repeated; a server that bound but never started can be destroyed.',
 ['configurations','histories','schedules'],'every set of bound ports, order of bind/start/stop-listen/stop calls and their interleaving with connecting clients',
 'No unit test binds more than one port or stops listening.',
 SV,[('acceptor socket table indexed by bind order','TcpServerMasterThread::bind_socket/_on_thread_message/get_bind_address')],(),['bind results, connection attempts per port'])
CL=[S+'cyNetwork/network/cyn_tcp_client.h',S+'cyNetwork/network/cyn_tcp_client.cpp']
prop('C17','Client connect attempts get exactly one truthful outcome, with correct retry',
 'Each connection attempt of a client produces exactly one outcome report: success if and only if the connection was established, failure otherwise (an attempt that fails immediately is reported by the connect call itself or, on a retry, by the callback). After a reported failure the client tries again exactly once after the delay the callback returned and not at all if it returned zero; after disconnect no further attempt or outcome is reported, and the reported state is connecting only while an attempt is in progress.',
 ['histories','fault_sequences','schedules'],'every sequence of refused, unreachable, delayed and accepted attempts with disconnects at any point',
 'No unit test uses the client; failure and retry paths need a peer that refuses on demand.',
 CL,[('connect / retry timer state machine','TcpClient::connect/_on_connect_status_changed/_abort_connect/_on_retry_connect_timer/disconnect')],
 [('attempt','idle, connecting, waiting to retry, connected, closed','TcpClient')],['on_connected callbacks, connection attempts seen by the peer, get_connection_state'])
prop('C18','Client stream starts with data sent while connecting and is ordered',
 'Data passed to a client send while it is connecting is transmitted once the connection is up, before any later data, exactly once and in order; data sent when neither connecting nor connected is dropped, and disconnect drops data not yet handed to a connection. Received data reaches the message callback in order and the close callback follows exactly once, after the connected callback.',
 ['histories','fault_sequences','schedules'],'every order of send, connect completion, failure and retry, disconnect and peer behaviour',
 'No unit test uses the client.',
 CL+CN,[('send cache flushed on establishment','TcpClient::send/_on_connect_status_changed')],(),['bytes seen by the peer, listener callbacks'])
SY=[S+'cyCore/core/cyc_system_api.h',S+'cyCore/core/cyc_system_api.cpp']
prop('C19','Signals and mutexes wake exactly as promised',
 'A signal is auto-reset: each notification releases at most one waiter, a notification with no waiter is kept (and merged with others) for the next one, and no notification is lost. A timed wait returns true only if it consumed a notification and false only after its timeout (or at once for zero); a mutex admits one owner at a time, an unowned mutex is always obtained, and a timed lock fails only after its timeout.',
 ['schedules','inputs'],'every interleaving of waiters, timed waiters, notifiers, lockers and timeouts',
 'The tests check a few orders with real sleeps; races of timeout against notification are never forced.',
 SY,[('predicate + condition variable; pthread mutex','sys_api signal_*/mutex_*')],(),['call/return of signal and mutex functions'])
prop('C20','Thread creation, identity and joining',
 'A created thread runs its function exactly once with its parameter, its name and id are visible inside it and the id equals the one given to the creator. Join returns only after the function has returned, a timed join returns false only if the function has not finished within the time and the thread can then still be joined, and detached threads run to completion without being joined.',
 ['schedules','inputs'],'every interleaving of creator, thread start, thread end and (timed) joins',
 'The tests create one or two threads with generous sleeps.',
 SY,[('resume/exit signals around std::thread','sys_api thread_*')],(),['call/return of thread functions'])
prop('C21','Pipe is a non-blocking FIFO byte channel',
 'Bytes written to a Pipe are read exactly once and in order; write and read transfer exactly the number of bytes they report, never block, and report would-block instead when the pipe is full or empty. Closing it releases both descriptors.',
 ['histories','schedules','inputs'],'every sequence and interleaving of reads and writes of any size, including overflow',
 'The tests use fixed sizes in lock step.',
 [S+'cyEvent/event/cye_pipe.h',S+'cyEvent/event/cye_pipe.cpp',S+'cyCore/core/cyc_socket_api.cpp'],[('kernel pipe in non-blocking mode','Pipe')],(),['read/write results'])
prop('C22','Log file holds every message at or above the threshold, whole and in order',
 'Every message logged at or above the current threshold appears in the current log file exactly once as one whole line carrying its level, thread name and full text however long, messages of one thread in order, and messages below the threshold do not appear. Concurrent loggers never tear or interleave lines, and changing the file or the threshold takes effect for subsequent messages.',
 ['schedules','inputs','histories'],'every interleaving of logging threads, threshold and file changes, any message length',
 'No test inspects the log contents.',
 [S+'cyCore/core/cyc_logger.h',S+'cyCore/core/cyc_logger.cpp'],[('append under one lock','disk_log')],(),['log file contents'])
UT=S+'cyUtility/utility/'
prop('C23','Ring queue is a FIFO, growing or bounded as configured',
 'A RingQueue keeps elements in insertion order: front, back, indexed access and both walks report the true content. An unbounded one never loses an element however it wraps and grows; a fixed-capacity one holds exactly the most recent elements up to its capacity, dropping the oldest, and popping any count removes exactly that many (or all) from the front.',
 ['inputs','histories'],'every sequence of pushes, pops, resets and walks for any capacity',
 'The tests check a few capacities and positions.',
 [UT+'cyu_ring_queue.h'],[('circular vector with growth and overwrite','RingQueue')],(),['accessors after each operation'])
prop('C24','Period statistics count exactly the samples inside the window',
 'For samples recorded with non-decreasing times, the reported sum and count cover exactly the samples no older than the period at the time of the query, for any number of samples and any gaps. Concurrent recording and querying on the locked variant is atomic.',
 ['inputs','histories','schedules'],'every sequence of samples, times and queries, and interleavings of recorders and readers',
 'The test checks one sequence of samples.',
 [UT+'cyu_statistics.h',UT+'cyu_ring_queue.h'],[('time-ordered queue trimmed by binary search','PeriodValue')],(),['sum_and_counts results'])
prop('C25','Min/max tracking is exact under concurrency',
 'After any set of concurrent updates the tracked minimum and maximum are the true minimum and maximum of the initial value (if one was given) and all updates, for signed, unsigned and floating types, and readers only ever see values that were supplied, moving monotonically. The atomic greater and smaller exchanges report success exactly when they replaced the value.',
 ['schedules','inputs'],'every interleaving of updates and reads, every value of the type',
 'The tests update with a few positive values, mostly from a single thread.',
 [UT+'cyu_statistics.h',S+'cyCore/core/cyc_atomic.h'],[('compare-and-swap loops','atomic_greater_exchange/atomic_smaller_exchange')],(),['min/max reads'])
CR=S+'cyCrypt/crypt/'
prop('C26','AES-CBC encryption matches the standard and round-trips',
 'Encrypting whole blocks produces the AES-128 CBC ciphertext of the standard for the given key and initial vector (or the documented default vector), in place or not, and decrypting with the same key and vector returns the plaintext. When a vector is supplied it is advanced so that a message processed in several calls equals the message processed in one.',
 ['inputs','histories'],'every key, vector, message and split into calls',
 'One fixed vector and a round trip are tested; chaining across calls and in-place use are not.',
 [CR+'cyr_rijndael.h',CR+'cyr_rijndael.cpp'],[('table driven rounds, CBC chaining','Rijndael::encrypt/decrypt')],(),['outputs'])
prop('C27','Key exchange gives both sides the same, correct secret',
 'A generated public key is the generator 5 raised to the private key modulo 2^128-159, and the secret is the other public key raised to the private key modulo the same prime. Hence both parties always compute the same secret.',
 ['inputs'],'every pair of private keys',
 'The test samples random pairs for equality only; equal but wrong values would pass.',
 [CR+'cyr_dhexchange.h',CR+'cyr_dhexchange.cpp'],[('128-bit modular multiplication and exponentiation','cyr_dhexchange.cpp')],(),['keys and secrets'])
prop('C28','Adler-32 checksum is standard and incremental',
 'The checksum of any byte sequence equals the standard Adler-32 value, and continuing from the checksum of a prefix over the non-empty rest gives the checksum of the whole, for every split and length.',
 ['inputs'],'every byte sequence, length and split',
 'The tests check few vectors; block-size boundaries and saturating values are not covered.',
 [CR+'cyr_adler32.h',CR+'cyr_adler32.cpp'],[('deferred modulo blocks','adler32')],(),['results'])
prop('C29','XorShift stream cipher is deterministic, chunk-consistent and self-inverse',
 'Two generators with equal seeds yield the same xorshift128+ sequence, masking a buffer twice with the same seed restores it, every byte of the buffer and nothing outside it is masked with the corresponding keystream byte, and masking in pieces of whole 8-byte words equals masking at once.',
 ['inputs','histories'],'every seed, length and split',
 'The test checks one length with random data.',
 [CR+'cyr_xorshift128.h',CR+'cyr_xorshift128.cpp'],[('64-bit keystream words','xorshift128')],(),['buffers'])
prop('C30','Server command messages reach the right thread exactly once, in order',
 'Custom commands sent to the master or to a chosen work thread of a running server are delivered exactly once, unaltered, in per-sender order, on that very thread after its start callback, whatever else the server is doing. Each server thread gets exactly one start callback.',
 ['schedules','histories','configurations'],'every interleaving of command senders with accepts, data and other commands',
 'No unit test runs a server.',
 SV+[S+'cyEvent/event/cye_work_thread.cpp'],[('per-thread mailbox, command id dispatch','TcpServer::send_master_message/send_work_message')],(),['command callbacks'])
prop('C31','Addresses convert faithfully',
 'An Address built from dotted text and port, from a port and scope, from a native address, or from a connected socket reports the same ip text, port and native value; copies are equal, and equal addresses have equal hashes.',
 ['inputs'],'every IPv4 address and port, every connection',
 'No unit test covers addresses.',
 [S+'cyNetwork/network/cyn_address.h',S+'cyNetwork/network/cyn_address.cpp'],[('sockaddr_in plus cached text','Address')],(),['accessors'])
prop('C32','Connection traffic statistics count the bytes really transferred',
 'While statistics are on, the totals a connection reports for a window covering its life are exactly the bytes the kernel took from it and the bytes it received, whatever short or failing writes happen, and zero before they are started. The reported largest buffer sizes are never above what was really sent or received.',
 ['schedules','histories','fault_sequences'],'every interleaving of senders, deliveries, short writes, would-block results and errors',
 'No unit test sends through a connection, and errors or short writes never occur on loopback.',
 CN,[('PeriodValue of bytes per direction, MinMaxValue of buffer sizes','TcpConnection::get_read_statistics/get_write_statistics/get_readebuf_max_size')],(),['statistics accessors against bytes at the peer'])
SA='samples/'
prop('C33','Echo sample server returns every byte, upper-cased and in order',
 'Every client of the echo server gets back exactly what it sent, upper-cased, once and in order, without having to send more, while other clients come, leave or reset. The message "exit" ends that connection only, the message "shutdown" stops the server, which then ends all connections and exits cleanly.',
 ['schedules','histories','fault_sequences'],'every interleaving of clients, splits of their data, work threads and shutdown',
 'No test runs the samples; data arriving in one piece larger than the reply buffer or split over reads never occurs by hand.',
 [SA+'echo/echo_server.cpp'],[('reply to what has been read','onPeerMessage'),('stop from a detached thread','onPeerMessage')],(),['bytes and ends at the clients, exit of the server'])
prop('C34','Chat sample server relays every message to every client in order',
 'A message a client of the chat server sends reaches every client which the server had taken in before (the sender included) unchanged, whole and at most once, and the messages of one sender in the order sent; clients that come, leave or reset meanwhile harm nobody else and the server never gets stuck.',
 ['schedules','histories','fault_sequences'],'every interleaving of clients, work threads, message splits and broken connections',
 'No test runs the samples; a connection that breaks just while a message is relayed to it never occurs by hand.',
 [SA+'chat/chat_server.cpp',SA+'chat/chat_message.h'],[('client map under a lock, packets sent to every client','ChatServer')],(),['messages at the clients'])
prop('C35','SOCKS5 sample proxy negotiates correctly and forwards losslessly',
 'For every fragmentation of the messages the proxy accepts a greeting offering "no authentication" and a CONNECT request for an IPv4 address or a host name that resolves, connects once to the requested port, replies success or failure with the result, and afterwards forwards the bytes of both sides unchanged, once and in order; anything else is refused by closing. When one side ends the tunnel ends on the other side after the data forwarded so far, and no end of a tunnel disturbs the others.',
 ['inputs','schedules','histories','fault_sequences'],'every greeting and request, split, connect result and interleaving of both sides and several tunnels',
 'No test runs the samples; fragmented handshakes, hosts that refuse at once and ends that meet data under way never occur by hand.',
 [SA+'socks5/s5_main.cpp',SA+'socks5/s5_protocol.cpp',SA+'socks5/s5_protocol.h'],[('message parsing','s5_get_handshake/s5_get_connect_request'),('tunnel states and forwarding','S5Tunnel')],(),['replies and bytes at the clients, connects and bytes at the hosts'])
prop('C36','Relay sample tunnels every client to the target losslessly, clear or encrypted',
 'With relay_local and relay_server running in the same mode every client of relay_local gets one connection of its own to the target, over which the bytes of both sides arrive unchanged, once and in order, whatever the number of clients and work threads. When one side ends, the other one ends too after the data sent before, and a connection to the target that fails ends its client; neither that nor a stranger speaking another protocol to the relay server disturbs the other clients.',
 ['inputs','schedules','histories','fault_sequences'],'every interleaving of several tunnels, splits, connect results and ends of either side, in both modes',
 'No test runs the samples; ends that meet data under way, failing connects and junk on the link never occur by hand.',
 [SA+'relay/relay_local.cpp',SA+'relay/relay_server.cpp',SA+'relay/relay_protocol.h'],[('sessions multiplexed over one link per work thread','RelayLocal/RelayServer'),('key exchange and block encryption of forwarded data','onUpMessage/onDownMessage')],(),['bytes and ends at clients and target'])
prop('C37','Clocks count microseconds correctly, local time is the civil date',
 'performance_time_now counts whole microseconds since one common origin, from any number of threads even when the first calls race; utc_time_now is the current time in microseconds since the epoch; local_time_now yields exactly the civil date and time of day of the current second in the local time zone. None of them ever goes backwards while the system clocks do not.',
 ['inputs','schedules','configurations'],'every instant, time zone and interleaving of (first) calls',
 'The tests compare two readings of the same clock in one thread.',
 [S+'cyCore/core/cyc_system_api.cpp',S+'cyCore/core/cyc_system_api.h'],[('common origin set once','performance_time_now'),('microseconds from the system clock','utc_time_now'),('civil date conversion','local_time_now')],(),['values of the three functions against the simulated clock'])
prop('C38','check_connect tells the truth in time and leaves nothing open',
 'check_connect returns, as long as fewer than 1024 descriptors are open, true only if the connection to the address was made within the timeout and false only if it was refused, failed, could not be tried or was not made in time; it returns as soon as the outcome is known and at the latest when the timeout is over, whatever other threads do, and closes what it opened on every path.',
 ['inputs','schedules','fault_sequences'],'every timeout, connect outcome and moment, failing system call, concurrent caller',
 'No test covers it; peers that answer late, never or with an error and failing system calls do not occur by themselves.',
 [S+'cyCore/core/cyc_socket_api.cpp'],[('non-blocking connect and select','check_connect')],(),['results, time of return, open descriptors'])
prop('C39','File transfer samples deliver the file unchanged or fail visibly',
 'The file-transfer client ends with an exact copy of the served file, for every size and number of threads, also when the server comes up late, and reports failure otherwise. The server answers every valid information and fragment request with exactly the bytes asked for, survives every invalid request, serves one client per work thread at a time and refuses others without disturbing it.',
 ['inputs','schedules','histories','fault_sequences'],'every file size, fragment division, split of messages, interleaving of clients and connect result',
 'No test runs the samples; small files, refused clients and invalid requests never occur by hand.',
 [SA+'filetransfer/ft_client.cpp',SA+'filetransfer/ft_server.cpp',SA+'filetransfer/ft_common.h'],[('fragments fetched by several threads into one file','ft_client'),('request checks and replies','ft_server')],(),['the file written by the client, replies at other clients'])
prop('C40','Relay pipe sample joins two ends losslessly and ends with them',
 'relay_pipe, with each side listening or connecting, joins the first two ends into one pipe: what one end sends, also before the other one is there, arrives at the other end unchanged, once and in order. Further connections are refused without disturbing the pipe. When one end ends, the other one gets the data still under way and is then closed, the program exits cleanly, and failing connects are retried until then.',
 ['schedules','histories','fault_sequences','configurations'],'every combination of modes, order of the ends coming and going, splits of data, connect results',
 'No test runs the samples; ends that leave before the pipe stands and refused connections never occur by hand.',
 [SA+'relay/relay_pipe.cpp'],[('pairing and forwarding','RelayPipe'),('three modes','RelayPipe_DoubleIn/DoubleOut/InOut')],(),['bytes and ends at both ends, exit of the program'])
prop('C41','Command lines are parsed completely and by the rules, files keep their order',
 'CSimpleOpt reports every option of a command line once and in order: under its own identifier, with the argument given to it, joined or separate, exactly when its text is spelled in full, in another case where that is permitted, or as an unambiguous beginning unless exact spelling is demanded. It reports unknown or ambiguous options, missing, unwanted or option-like arguments by their error, or takes them as files where errors are off. Clumped options mean what they mean one by one. Every other argument appears among the files in its original order, also when parsing is stopped early or options and flags change in between. No text or array is read or written beyond its end, for any number of arguments and any reuse of the parser.',
 ['inputs','histories','configurations'],'every command line, option table, combination of flags, history of calls',
 'No test covers it; the samples use one table and a handful of command lines.',
 [S+'cyUtility/utility/cyu_simple_opt.h'],[('next option','Next/NextClumped/MultiArg'),('spelling rules','LookupOption/CalcMatch/IsEqual'),('files moved behind','ShuffleArg/Stop')],(),['results of Next, MultiArg and Files on generated command lines'])
prop('C42','What an object took, it gives back when it is destroyed',
 'When a user has stopped and destroyed every object of the library he made (buffers, queues, packets, pipes, threads, loopers, workers, servers, connections, clients), whatever happened to them before, every block of memory the library allocated for them has been freed exactly once, every descriptor it opened has been closed exactly once and every thread it started has ended; only what is kept on purpose for the whole process stays reachable.',
 ['histories','schedules','fault_sequences'],'every history of use before the destruction: messages nobody took, data nobody sent, timers and events still registered, failed starts, connections in every state',
 'Tests let the process end; what is left behind in rarely taken paths is noticed only by servers that run for months.',
 [S+'cyCore/core/cyc_ring_buf.cpp',S+'cyEvent/event/cye_packet.cpp',S+'cyEvent/event/cye_work_thread.cpp',S+'cyEvent/event/cye_looper.cpp',S+'cyNetwork/network/cyn_tcp_connection.cpp',S+'cyNetwork/network/cyn_tcp_server.cpp',S+'cyNetwork/network/cyn_tcp_client.cpp',S+'cyCore/core/cyc_logger.cpp'],[('destructors','~RingBuf, ~Packet, ~WorkThread, ~Looper, ~TcpConnection, ~TcpServer, ~TcpClient'),('packet ownership','alloc_packet/free_packet')],(),['allocations, descriptors and threads left at the end'])
prop('C43','Echo and chat clients send every line and show all that they receive',
 'The echo client sends every non-empty line typed (up to 255 characters) unchanged and in order, the chat client sends one message per line; both show everything the server sends, completely and in order, the chat client one text per message, whatever its size and however messages are split or joined. A server that is not there yet is tried again until it is. When the server closes the connection, after everything before it was shown, or when the input ends, the program exits normally.',
 ['inputs','schedules','histories','fault_sequences'],'every sequence of lines, split and joining of what the server sends, moment of connection and of its end',
 'No test runs the samples; joined or long messages and redirected input do not occur by hand.',
 [SA+'echo/echo_client.cpp',SA+'chat/chat_client.cpp'],[('display of what is received','onMessage'),('end of the program','onClose/main'),('retry','onConnected')],(),['bytes at the server, texts shown, exit of the program'])
prop('C44','Socket calls do exactly what they say and library sockets are set up alike',
 'Every socket_api setter (non-blocking, close-on-exec, keep-alive, reuse address and port, no-delay, linger) changes exactly the setting it names, to the value given, and returns true exactly if the system accepted it. Bind, listen, connect, accept, shutdown and the name and error queries report what the system did, streams keep their bytes and datagrams stay whole with the true sender, an empty accept or read is recognised as would-block, a socket error is reported once. The sockets the library makes itself never block, are not inherited by programs started later, send at once, notice dead peers and do not linger; ports are shared only when asked for.',
 ['inputs','histories','fault_sequences'],'every sequence of calls over several sockets, with system calls that fail at any point',
 'The unit tests touch no sockets; a wrong result or setting shows only in how the system behaves much later.',
 [S+'cyCore/core/cyc_socket_api.cpp',S+'cyNetwork/network/cyn_tcp_connection.cpp',S+'cyNetwork/network/cyn_tcp_client.cpp',S+'cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp'],[('setters and results','socket_api::*'),('set-up of sockets','TcpConnection constructor, TcpClient::connect, bind_socket')],(),['results of the calls, settings and data the system holds for each socket'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['id']+' '+str(len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
