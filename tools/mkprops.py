"""writes properties.jsonl (kept as source: easier to edit than the JSON lines)"""
import json, os
P = []
def p(id, title, st, over, qt, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': None}})
I = 'include/'
p('P01', 'Length-prefixed encoding produces exactly header plus body, or refuses',
  'Packing any list of byte strings yields one message whose header is the total length (header included) in network byte order followed by the strings\' bytes in order and nothing else; in native mode there is no header. A message is refused, never truncated or mislabelled, exactly when it exceeds the configured buffer size or what the header can express. The heartbeat and multi-message forms encode by the same rule, and the pieces reported as payload of a packed message are exactly its body.',
  ['inputs', 'configurations'], 'for every number, length and content of strings, both modes, every configured buffer size and header width',
  'The tests send a few short strings through one configuration; header overflow, boundary sizes, null entries and arbitrary counts are never reached.',
  [I + 'ext/packer.h', I + 'base.h'], [('packer::pack_msg and packer2', I + 'ext/packer.h'), ('packer_helper::pack_header', I + 'ext/packer.h'), ('i_packer', I + 'base.h')],
  ['the packed message handed to the socket'])
p('P02', 'Delimited and fixed-length encoders preserve bytes and add only their framing',
  'The delimiter encoder outputs prefix, the bodies in order, suffix (nothing around them in native mode), the fixed-length and plain encoders output exactly the bodies; when they assemble a message (everything except the fixed-length list forms, which pass messages on as they are) they refuse exactly those that exceed the buffer size. The payload reported for a packed message excludes exactly the framing that was added.',
  ['inputs', 'configurations'], 'for every prefix, suffix, list of strings and mode',
  'The stock tests exercise one delimiter pair and small messages.',
  [I + 'ext/packer.h'], [('fixed_length_packer, prefix_suffix_packer', I + 'ext/packer.h')], ['the packed message handed to the socket'])
p('P03', 'Length-prefixed decoding returns exactly the framed messages, however chunked',
  'Whatever way a byte stream is split into reads, the length-prefixed decoders deliver exactly the bodies of the frames in the stream, each once and in order, skip frames with an empty body, and keep the unconsumed tail for the next read. They never ask for or touch memory outside their buffers, and a frame whose header is impossible is reported as an error without losing the complete messages before it.',
  ['inputs', 'histories'], 'for every byte stream, every chunking, every state the decoder can be in, both header modes',
  'Tests feed loopback traffic where reads are rarely split at inconvenient points and headers are always valid.',
  [I + 'ext/unpacker.h'], [('unpacker, flexible_unpacker, unpacker2, non_copy_unpacker', I + 'ext/unpacker.h')],
  ['list of messages given to the user', 'the memory range offered for the next read'],
  [('remain_len / cur_msg_len', 'bytes kept from earlier reads, length of the frame being received', I + 'ext/unpacker.h')])
p('P04', 'Fixed-length, delimited and raw stream decoders deliver exactly the framed bytes',
  'The fixed-length decoder cuts the stream every n bytes; the delimited decoder delivers exactly the bytes between each prefix and the first following suffix and rejects streams that do not start with the prefix; the raw decoder delivers each read unchanged. None loses, duplicates or invents a byte across reads, and none touches memory outside its buffers.',
  ['inputs', 'histories'], 'for every byte stream, chunking, delimiter and message length',
  'Tests use one delimiter and one length over loopback.',
  [I + 'ext/unpacker.h'], [('fixed_length_unpacker, prefix_suffix_unpacker, stream_unpacker', I + 'ext/unpacker.h')], ['list of messages given to the user', 'the memory range offered for the next read'])
p('P05', 'Datagram decoders deliver each datagram exactly',
  'Each received datagram is delivered as one message with exactly its bytes, in order; empty datagrams produce no message, and a datagram never exceeds the buffer offered for it.',
  ['inputs'], 'for every datagram size and content',
  'The UDP demo is not part of the tests.',
  [I + 'ext/unpacker.h'], [('udp_unpacker, udp_unpacker2', I + 'ext/unpacker.h')], ['list of messages given to the user'])
p('P06', 'The byte buffer behaves as a byte string with exclusive ownership',
  'Every operation of the byte buffer (construct, copy, assign, append, size, swap, detach, attach, clear) has exactly the effect of the same operation on a mathematical byte string, including when a buffer is combined with itself or with an empty one. It never reads or writes outside its storage, never leaks or frees it twice, and copying never lets two buffers share storage.',
  ['inputs', 'histories'], 'for every content, length, capacity and operand aliasing',
  'No test uses the buffer directly; aliasing, reallocation and capacity edges are unreached.',
  [I + 'ext/ext.h'], [('basic_buffer', I + 'ext/ext.h')], ['size and bytes of the buffer'], [('buff, len, cap', 'storage, bytes used, bytes available', I + 'ext/ext.h')])
p('P07', 'Message queues are FIFO and account their bytes exactly',
  'Messages leave a queue in exactly the order they entered, each exactly once, whether moved singly, in batches bounded by bytes or count, to the front or the back, or swapped. The reported byte total always equals the sum of the sizes of the messages inside, and every acquired lock is released.',
  ['inputs', 'histories'], 'for every queue content, message size and batch limit',
  'Tests never look at the queue; batch limits, empty messages and totals are unobserved.',
  [I + 'container.h'], [('queue, lock_queue, non_lock_queue', I + 'container.h')], ['order of messages sent/dispatched', 'pending byte totals'], [('buff_size', 'bytes held', I + 'container.h')])
p('P08', 'Message wrappers transfer content without loss, sharing or duplication',
  'Swapping or moving message wrappers (timestamped, addressed, reference-holding and replaceable-message wrappers) exchanges exactly the content, attribute by attribute, and leaves nothing dangling. An emptied or default wrapper reports an empty message of size zero, and copying a wrapper never releases or aliases what it does not own.',
  ['inputs', 'histories'], 'for every content of the two operands, aliased or not',
  'Tests use these types only implicitly with default content.',
  [I + 'base.h', I + 'ext/ext.h', I + 'ext/packer.h'], [('obj_with_begin_time, udp_msg, obj_with_peer_addr, unique_buffer, shared_buffer, replaceable', I + 'base.h')], ['content of the wrappers'])
p('P09', 'Statistics count every message and byte exactly and combine linearly',
  'After any history, the counters equal the number and bytes of messages sent, received, dispatched; adding two statistics adds each counter, and resetting zeroes them. Derived durations are merged so that totals add, and minimum and maximum are those of the union.',
  ['inputs', 'histories', 'configurations'], 'for every pair of statistics, with and without full statistics enabled',
  'Tests only print statistics.',
  [I + 'base.h'], [('statistic', I + 'base.h')], ['statistic values read by the user'])
p('P10', 'Sending: one write in flight, accepted messages written once, in order',
  'On a link there is never more than one outstanding write; accepted messages are written in acceptance order, each exactly once, a write contains whole messages only, and the next write starts as soon as the previous succeeded while messages are pending. Each successfully written message is reported as sent exactly once with its exact size, and the all-sent notification fires exactly when the queue becomes empty; a failed write is reported once with its messages, and nothing more is written until a new send or connection.',
  ['schedules', 'histories', 'fault_sequences'], 'for every history of sends, write completions (success, error) and link state',
  'Loopback tests never fail a write nor check ordering between priorities and batches.',
  [I + 'tcp/socket.h', I + 'socket.h', I + 'udp/socket.h'], [('do_send_msg / send_handler', I + 'tcp/socket.h'), ('send_msg', I + 'socket.h')], ['writes issued on the transport', 'on_msg_send / on_all_msg_send callbacks'], [('sending, sending_msgs, send_buffer', 'in-flight marker and content, waiting messages', I + 'socket.h')])
p('P11', 'Send-side back pressure: bounded buffer, refusal without side effects',
  'A message is refused, leaving every buffer unchanged, exactly when overflow is not permitted and the pending bytes have reached the configured limit, or packing a message object or list failed (a failed packing of raw data is swallowed, as documented); otherwise it enters the pending buffer exactly once and pending bytes grow by exactly its size. Forced sends ignore only the limit.',
  ['inputs', 'histories'], 'for every pending amount, limit, message and overflow flag',
  'Tests never reach the send buffer limit.',
  [I + 'socket.h', I + 'base.h', I + 'tcp/socket.h', I + 'udp/socket.h'], [('TCP_SEND_MSG, UDP_SEND_MSG, shrink_send_buffer', I + 'base.h'), ('is_send_buffer_available', I + 'socket.h')], ['return value of send calls', 'pending bytes'])
p('P12', 'Received messages reach the user in order, each exactly once, even after refusal',
  'Every message decoded from the link is offered to the user in arrival order; a message the user accepts is never offered again and a message the user declines is offered again later before any newer one. Only one dispatch is active per link at a time.',
  ['schedules', 'histories'], 'for every sequence of reads, dispatches, acceptances and refusals',
  'Tests accept every message immediately.',
  [I + 'socket.h', I + 'tcp/socket.h', I + 'udp/socket.h'], [('handle_msg, dispatch_msg, do_dispatch_msg', I + 'socket.h')], ['on_msg / on_msg_handle callbacks'], [('recv_buffer, dispatching, dispatching_msg', 'pending messages and the one being handled', I + 'socket.h')])
p('P13', 'Receive flow control: reading pauses on a full buffer and always resumes',
  'At most one read is outstanding per link; a new read is issued only while the receive buffer is below its limit and receiving is not suspended by the congestion controls, and when it is not issued a resume is always scheduled so reading continues once there is room. A read error is reported exactly once and ends reading; a decoding error is reported exactly once, the decoder starts over and reading goes on.',
  ['schedules', 'histories', 'fault_sequences'], 'for every buffer fill level, read completion and error',
  'Loopback tests drain quickly; the limit, resume timer and error paths are not reached.',
  [I + 'socket.h', I + 'tcp/socket.h', I + 'udp/socket.h'], [('handle_msg, timer_handler(TIMER_CHECK_RECV), recv_handler, check_receiving', I + 'socket.h')], ['reads issued on the transport', 'resume timer'])
p('P14', 'Link life cycle: start once, shut down once, close notification exactly once',
  'A link starts only when not already started, and every started link that is shut down or breaks ends with exactly one close notification, delivered only after all of its pending asynchronous operations finished. Shutting down is idempotent, force overrides graceful, a link that is not up starts no write, and after reset the object is indistinguishable from a fresh one.',
  ['schedules', 'histories', 'fault_sequences'], 'for every history of start, shutdown, error, timer and close events',
  'Tests close links in one or two orders only.',
  [I + 'socket.h', I + 'tcp/socket.h', I + 'tracked_executor.h'], [('start, close, force_shutdown, graceful_shutdown, async close timer', I + 'socket.h')], ['link status queries', 'on_connect / on_close / after_close callbacks'], [('started_, status', 'life-cycle state', I + 'tcp/socket.h')])
p('P15', 'Client reconnection follows the reconnect policy exactly',
  'A client whose link closes or whose connect attempt fails tries again if and only if reconnection is enabled and the policy delay is non-negative, waiting exactly that delay; a negative delay or disabled reconnection abandons it and releases it. Explicit disconnect with or without reconnect overrides the policy.',
  ['histories', 'fault_sequences'], 'for every sequence of connect results, policy answers and disconnect calls',
  'Tests reconnect only in one scripted scenario.',
  [I + 'tcp/client_socket.h', I + 'tcp/client.h'], [('connect_handler, prepare_next_reconnect, after_close, force_shutdown', I + 'tcp/client_socket.h')], ['connect attempts and timers', 'link status'])
p('P16', 'Heartbeat: idle links are probed, dead links reported, busy links untouched',
  'When heartbeats are enabled, a heartbeat is sent on a ready link that has sent nothing for the interval and is not sending (or at every check when so configured), and on no other, and a link with no traffic received for interval times the allowed absence is reported dead, once per check, and checked no further unless the handler tolerates it; a link that received anything within that time is never reported. Heartbeats are never delivered to the user as messages.',
  ['histories', 'inputs'], 'for every timing of sends, receives and checks',
  'Heartbeat timing is not tested.',
  [I + 'socket.h', I + 'tcp/socket.h', I + 'udp/socket.h'], [('check_heartbeat, start_heartbeat, send_heartbeat', I + 'socket.h')], ['heartbeat writes', 'on_heartbeat_error callback'])
p('P17', 'Object pool: unique ids, bounded size, objects recycled only when safe',
  'Objects in the pool have distinct ids and never exceed the configured maximum; lookup returns exactly the object added under that id; a removed object is kept until nothing else refers to it and it has completely closed, and only then freed or reused, never twice. Changing an id never loses an object or duplicates an id.',
  ['histories', 'inputs'], 'for every history of add, remove, lookup, id change, reuse and clean-up',
  'Tests exercise add and remove in one order with few objects.',
  [I + 'object_pool.h', I + 'tcp/server.h', I + 'tcp/client.h'], [('object_pool', I + 'object_pool.h')], ['pool queries'], [('object_can, invalid_object_can', 'live and retired objects', I + 'object_pool.h')])
p('P18', 'Timers fire once per arming, repeat only on request, never after stop',
  'A started timer calls its callback exactly once per expiry with its own id and re-arms with its current interval if and only if the callback returned true and it was not stopped meanwhile; after stopping or restarting, an expiry still on its way does nothing. Timers are identified by id: operations affect exactly the named timer, and the status reported is consistent with this.',
  ['schedules', 'histories'], 'for every history of set, change, start, stop, expiry and callback result, including restarts inside callbacks',
  'Tests use timers in the simplest pattern.',
  [I + 'timer.h'], [('timer::start_timer, timer_handler, stop_timer, create_or_update_timer', I + 'timer.h')], ['callback invocations', 'timer status'], [('status, seq, interval_ms', 'state of a timer', I + 'timer.h')])
p('P19', 'Service pump: services start/stop once, contexts balanced by reference count',
  'Starting and stopping a service is idempotent and reaches every registered service exactly once; a removed service is stopped once and forgotten. With several execution contexts, a new user gets a context with the fewest references, reference counts equal assignments minus returns, threads go to the context with the fewest threads, and configuration calls that are too late or invalid change nothing.',
  ['histories', 'configurations'], 'for every history of add, remove, start, stop, assign and return, any number of contexts',
  'Tests use a single context and stop once.',
  [I + 'service_pump.h', I + 'timer.h'], [('service_pump, i_service', I + 'service_pump.h')], ['init/uninit calls on services', 'context reference counts'])
p('P20', 'SOCKS proxy handshake sends well-formed requests and accepts only valid replies',
  'The SOCKS4 and SOCKS5 clients send byte-exact requests for the configured target and credentials, never overrunning the request buffer, and report the link connected if and only if the proxy\'s replies are a valid acceptance, however they are split. Any other reply fails the connection without reading outside the reply buffer.',
  ['inputs', 'fault_sequences'], 'for every target, credential and reply byte sequence',
  'No test uses a proxy.',
  [I + 'tcp/proxy/socks.h'], [('socks4::client_socket_base, socks5::client_socket_base', I + 'tcp/proxy/socks.h')], ['bytes written to the proxy', 'connect result'])
p('P21', 'UDP links send to and receive from the right peer',
  'A datagram is sent to the peer named in the call, or the configured peer when none is given, and delivered with the address it came from; sends without any usable peer are refused. In connected mode only the configured peer is addressed, and socket (re)opening binds exactly the configured local address.',
  ['inputs', 'histories', 'configurations'], 'for every peer, payload, connect mode and open/bind outcome',
  'UDP is not covered by the stable tests.',
  [I + 'udp/socket.h', I + 'base.h'], [('generic_socket', I + 'udp/socket.h')], ['datagrams issued on the transport', 'addresses delivered'])
p('P22', 'Server admission: connections are accepted, tracked and dropped consistently',
  'Every successful accept results in exactly one tracked, started link or in a closed one (when refused or the pool is full), and accepting continues unless listening was stopped or the error handler declines; broadcast and shutdown reach exactly the tracked links. Accept errors never lose or duplicate a link.',
  ['histories', 'fault_sequences'], 'for every accept result, pool fill level and listening state',
  'Tests have successful accepts only.',
  [I + 'tcp/server.h', I + 'tcp/server_socket.h', I + 'tcp/client.h'], [('generic_server', I + 'tcp/server.h'), ('multi_client_base', I + 'tcp/client.h')], ['links in the server', 'accept operations issued'])
p('P23', 'Callback adapters forward each event once to the registered function or the base',
  'A callback registered by the user is called exactly once for each event in place of (or in addition to, as documented) the default behaviour, with the same arguments, and its result is returned; with no callback registered the default behaviour is unchanged. Registering or clearing one callback never affects another.',
  ['histories', 'inputs'], 'for every set of registered callbacks and every event',
  'The tests register a few callbacks only.',
  [I + 'ext/callbacks.h'], [('callbacks::tcp_socket, client_socket, server_socket, udp_socket, server, object_pool', I + 'ext/callbacks.h')], ['callback invocations'])
p('P24', 'No data races between service threads and user threads',
  'Any public call documented as thread safe may run concurrently with the service threads without a data race, lost message or corrupted state.',
  ['schedules'], 'for every interleaving of threads', 'Tests sample a handful of interleavings.',
  [I + 'container.h', I + 'socket.h', I + 'object_pool.h'], [('mutexes and strands', I + 'socket.h')], ['any observable'])
p('P25', 'Graceful shutdown always terminates',
  'A graceful shutdown started on any link eventually closes it, by the peer\'s acknowledgement or the timeout.',
  ['schedules', 'fault_sequences'], 'for every peer behaviour', 'Liveness over unbounded schedules.',
  [I + 'tcp/socket.h'], [('graceful shutdown timer', I + 'tcp/socket.h')], ['on_close callback'])
p('P26', 'TLS and WebSocket links keep the guarantees of plain links',
  'Links over TLS or WebSocket deliver the same messages under the same life-cycle rules as plain TCP links.',
  ['histories', 'fault_sequences'], 'for every handshake and record-layer behaviour', 'Demos need interactive peers.',
  [I + 'tcp/ssl/ssl.h', I + 'tcp/websocket/websocket.h'], [('ssl / websocket socket classes', I + 'tcp/ssl/ssl.h')], ['messages delivered'])
p('P27', 'Reliable UDP delivers an ordered, lossless message stream',
  'Messages sent over reliable UDP arrive in order, exactly once, despite datagram loss, duplication and reordering.',
  ['fault_sequences', 'schedules'], 'for every loss pattern', 'The transport dependency is not present, so it is never built.',
  [I + 'udp/reliable_socket.h'], [('reliable_socket_base', I + 'udp/reliable_socket.h')], ['messages delivered'])
for x in P: assert len(x['title']) <= 80, x['title']
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
