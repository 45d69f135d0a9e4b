import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m) for n,m in state]
    P.append(d)
R="src/app/common/reactor/"
M="src/app/modbus/"
U="src/app/ua/"
C="src/app/common/ua/"
p("R01","Every accepted message reaches its handler exactly once, intact, in order",
 "Every message sent to a component is handed to the handler registered for that message exactly once, on that component's own reactor, byte for byte as it was sent, and in the order in which each sending thread sent it; a message is dropped only whole, and only when more messages are pending than the mailbox can hold. A message for an unknown component or without a registered handler, one larger than the maximum message size, an attempt to add a second component under an id that is taken, and a handler that throws a standard exception, each affect no other message.",
 ["schedules","inputs","histories"],"any number of sending threads, message sizes up to the maximum and beyond, bursts beyond the mailbox capacity, handlers that throw, sends from inside handlers",
 "No existing test starts a reactor thread; message passing is mocked away everywhere.",
 [R+"Reactor.cpp",R+"ReactorManager.cpp",R+"MsgMemStorage.cpp",R+"Event.cpp","src/app/common/utils/Queue.hpp"],
 [("mailbox of fixed chunks under a mutex","MsgMemStorage::push/pop"),("eventfd wake-up and drain loop","Reactor::send, Reactor::onFdEvent"),("routing by component id","ReactorManager::send")],
 ["messages handed to registered handlers vs messages sent"])
p("R02","Concurrent use, logging and shutdown are free of data races and memory errors",
 "Sending messages and logging from any number of threads while reactors run, and stopping and destroying the reactors and components at any moment of that traffic, involves no data race, no memory error and no crash. Stopping returns, and once the system has been stopped no handler runs any more.",
 ["schedules","histories"],"any interleaving of senders, reactor threads, timers, socket events, log output and shutdown",
 "The existing tests are single-threaded and never create, stop or destroy a reactor.",
 [R+"Reactor.cpp",R+"ReactorManager.cpp",R+"Thread.cpp",R+"MsgMemStorage.cpp","src/app/common/logger/Logger.cpp","src/app/common/logger/Logger.hpp"],
 [("mailbox mutex","MsgMemStorage"),("stop flag, wake-up and join","Reactor::stop, Thread"),("log output lock and bounded formatting","Logger::dispatch, LM")],
 ["ThreadSanitizer/AddressSanitizer reports","handler invocations after stop"])
p("R03","Timers fire once, never early, and never after stop, restart or release",
 "A started timer calls its handler exactly once, not before the requested interval has passed; a timer that is stopped or released before it fires does not call its handler, and starting it again replaces the previous deadline. This holds for every interval and for actions taken from inside handlers, including handlers of other timers that became due at the same moment.",
 ["inputs","schedules","histories"],"any sequence of start/stop/restart/release over many timers with any intervals (microseconds to more than a second), from any handler",
 "Timers are always mocked in the tests; no real timer ever runs.",
 [R+"Timer.cpp",R+"Epoll.cpp",R+"Reactor.cpp",R+"EntityPool.hpp"],
 [("absolute one-shot timerfd","Timer::start/stop/onFileDescriptorEvent"),("event dispatch batch","Epoll::wait"),("pool of reusable timers","Reactor::createTimer")],
 ["timer handler invocations with monotonic timestamps"])
p("R04","Socket links carry the byte stream unmodified to the addressed endpoint only",
 "A link connects to exactly the IPv4 address and port it was given, and bytes written on one side are delivered on the other side complete, in order and unmodified whatever the segmentation; a write that could not be handed over completely is reported as a failure. When the peer closes or resets, the owner of the link is told (end of stream or error) and the process survives, and no event of a closed link is ever delivered to a later user of a link.",
 ["inputs","schedules","fault_sequences"],"any address/port bytes, any payload and segmentation, peers that close, reset, stall or refuse at any moment, link reuse inside an event batch",
 "Links are mocked in all tests; no socket is ever opened.",
 [R+"Link.cpp",R+"Acceptor.cpp",R+"Epoll.cpp",R+"types/LinkAddr.hpp",R+"LinkInterface.hpp"],
 [("address decoding","ipv4port/ipv4addr"),("edge-triggered socket events","Link::onFileDescriptorEvent"),("send/receive result mapping","Link::send, Link::receive")],
 ["bytes and events observed by both socket ends"])
p("R05","Timers, links, listeners and descriptors are conserved",
 "Every timer, link and listener that its owner drops can be handed out again, no two live owners ever share one, and a creation, listen, accept or connect that fails is reported to its caller and consumes nothing. After any sequence of operations, including failing system calls, the number of obtainable timers, links and listeners and the number of open file descriptors return to their initial values once everything is dropped.",
 ["histories","fault_sequences"],"any create/use/drop sequence up to pool exhaustion, with system calls failing at any point",
 "Tests never allocate from the real pools nor make a system call fail.",
 [R+"EntityPool.hpp",R+"Reactor.cpp",R+"Timer.cpp",R+"Link.cpp",R+"Acceptor.cpp","src/app/common/utils/Queue.hpp"],
 [("id free-list","EntityPool::alloc/release"),("deleter returns entity to pool","Reactor::createTimer/createLink/createAcceptor"),("close on failure paths","Timer::create, Link::connect, Acceptor::listen/accept")],
 ["pool capacity probes, /proc/self/fd"])
p("R06","Log output is complete, whole, ordered and filtered",
 "Every message logged with a level at or above its task's level is written exactly once, as one whole line with the local time of the moment, its level, task, source file name, line number and text (cut to 1023 characters), and the lines of one thread appear in the order it logged them, whatever other threads log at the same time and whatever characters the text contains. Messages below their task's level write nothing and their arguments are not evaluated, and a task's level affects no other task.",
 ["inputs","schedules"],"any number of logging threads, message sizes, texts, task/level settings and time zones",
 "No existing test looks at the log output, and none logs from more than one thread.",
 ["src/app/common/logger/Logger.cpp","src/app/common/logger/Logger.hpp"],
 [("level filter and bounded formatting","LM macro"),("output under a lock","Logger::dispatch"),("level per task","Logger::setTaskLogLevel/getTaskLogLevel")],
 ["the process's standard output"])
p("M01","Every Modbus client request gets exactly one response",
 "Each request handed to the Modbus subsystem while it is initialised gets exactly one response carrying the same client and transaction ids, whatever happens to the connection, the peer, the queue or the request itself (unknown client, unencodable request, full queue). No response is ever produced for a request that was not made, provided the client is not released or reconfigured in between.",
 ["inputs","histories","fault_sequences","schedules"],"any request mix and batching, any peer behaviour (silence, garbage, partial, duplicate, delayed, oversized replies), any link failure at any step",
 "The Modbus code has no tests at all.",
 [M+"client/ModbusClient.cpp",M+"client/ModbusClientSend.cpp",M+"client/ModbusClientReceive.cpp",M+"client/ModbusAduStorage.cpp",M+"Modbus.cpp"],
 [("bounded FIFO of pending requests","ModbusAduStorage"),("client state machine","ModbusClientConnect/Connected/Send/Receive/Backoff"),("error responses","ModbusClient::provideRspError")],
 ["requests in vs responses out, by client and transaction id"])
p("M02","Modbus client sends each request as the correct frame, in order, one at a time",
 "Every well-formed request sent by a connected client appears on the wire as exactly the Modbus/TCP frame the protocol prescribes for it, requests of one client go out in the order they were made, and a new request is not sent until the previous one has been answered or has timed out. A malformed request (unit address, item count or data length out of range) puts nothing on the wire.",
 ["inputs","histories","fault_sequences"],"every function, address, item count, data content and queue history",
 "The Modbus code has no tests at all.",
 [M+"ModbusCodec.cpp",M+"client/ModbusClient.cpp",M+"client/ModbusClientSend.cpp",M+"client/ModbusAduStorage.cpp"],
 [("frame encoder","ModbusCodec::encode(AduRequest)"),("send/receive alternation","ModbusClientSend/ModbusClientReceive")],
 ["bytes written to the client's link"])
p("M03","A Modbus client result reports what the server actually answered",
 "A response is reported as successful only when the server answered that very request with a well-formed frame of matching transaction id, unit address and function, and it then carries exactly the values of that frame; a well-formed exception reply is reported with its exception code. Any other reply, no reply, or reply data that arrived before the request was sent yields an error response without data, independent of how the reply is segmented.",
 ["inputs","histories"],"every reply content and segmentation, including stale, truncated, oversized and corrupted ones",
 "The Modbus code has no tests at all.",
 [M+"ModbusCodec.cpp",M+"client/ModbusClient.cpp",M+"client/ModbusClientReceive.cpp",M+"PduBuffer.hpp"],
 [("reply framing","ModbusCodec::isAduReceived/isAduValid"),("reply decoder","ModbusCodec::decode(AduRespond)"),("match against pending request","ModbusClient::receive")],
 ["bytes fed to the link vs response messages"])
p("M04","Modbus server relays each request faithfully and answers on the right connection",
 "Each complete valid request frame received on a connection is passed to the application exactly once with exactly its fields, however the bytes are segmented, and the application's answer is written to that same connection as exactly one correctly encoded reply echoing the request's transaction id, unit and function (or exception). An answer that does not belong to the request being served on that connection is never sent to any peer, also when it comes late and the same transaction id is in use again.",
 ["inputs","histories","schedules"],"every request frame, segmentation, number of concurrent connections, and answer order, delay, duplication or mismatch",
 "The Modbus code has no tests at all.",
 [M+"server/session/ModbusSession.cpp",M+"server/session/ModbusSessionWaitModbusAduRsp.cpp",M+"server/ModbusServer.cpp",M+"ModbusCodec.cpp"],
 [("request decoder","ModbusCodec::decode(AduRequest)"),("reply encoder","ModbusCodec::encode(AduRespond)"),("per-connection session","ModbusSession")],
 ["bytes in/out per connection vs application messages"])
p("M05","Modbus server survives any byte stream and reclaims every connection",
 "No sequence of bytes, connects, disconnects or application answers makes the Modbus server crash, touch memory out of bounds, decide on memory that was never written or pass a malformed or unsupported frame to the application, and a misbehaving connection does not disturb others. Every connection that was closed, broke or went idle is eventually released so that new connections are accepted again, also after the connection limit was hit or an accept failed.",
 ["inputs","histories","fault_sequences"],"arbitrary byte streams, connection churn beyond the limits, failing accepts and resource creation, arbitrary answer messages",
 "The Modbus code has no tests at all.",
 [M+"server/ModbusServer.cpp",M+"server/ModbusSessionPool.cpp",M+"server/session/ModbusSession.cpp",M+"ModbusCodec.cpp",M+"PduBuffer.hpp"],
 [("bounded receive buffer and length checks","ModbusSession::receive, PduBuffer"),("session pool","ModbusSessionPool"),("inactivity timer","ModbusSessionConnected")],
 ["sanitizer reports, forwarded requests, accepted connections, live timers/links"])
p("M06","A Modbus client always recovers and never waits forever",
 "After any connection failure, refusal, timeout or local connect error a configured client retries after its back-off until the server is reachable again and then serves new requests normally, keeping at most one connection at a time. Every request handed to a configured client is answered within the bounded time given by its timeouts and queue position, never hanging.",
 ["fault_sequences","histories","schedules"],"any sequence of link failures, refusals, silent peers and local errors followed by a healthy server",
 "The Modbus code has no tests at all; timeouts are never exercised.",
 [M+"client/ModbusClientConnect.cpp",M+"client/ModbusClientBackoff.cpp",M+"client/ModbusClientReceive.cpp",M+"client/ModbusClient.cpp"],
 [("connect timeout and back-off","ModbusClientConnect/ModbusClientBackoff"),("receive timeout","ModbusClientReceive")],
 ["virtual-time trace of connects, sends and responses"])
p("M07","Modbus lifecycle requests are each answered truthfully and release frees all",
 "Every initialise and release request, and every configure request made while initialised, is answered exactly once, the configuration answer listing each configured item once, in order, with success exactly for the items that are in range and could be started; items that fail do not affect the others. After a release all timers, links and listeners are returned and the subsystem can be initialised, configured and released again any number of times.",
 ["histories","configurations","fault_sequences"],"any sequence of init/config/release, any item list with valid and invalid ids, modes and addresses, failing resources",
 "The Modbus code has no tests at all.",
 [M+"Modbus.cpp",M+"ModbusComponent.cpp",M+"server/ModbusServer.cpp",M+"client/ModbusClient.cpp"],
 [("configuration loop","Modbus::receive(MsgModbusConfigReq)"),("ownership of clients/servers","Modbus")],
 ["lifecycle answers and live resources of the reactor"])
p("U01","OPC UA binary decoding inverts encoding for every value",
 "Decoding the encoding of any supported OPC UA value (built-in types, arrays, variants, data values, node ids, and all protocol and service messages) yields an equal value, consumes exactly the bytes that were written, and does not depend on what the target object held before. Values written one after another are read back in the same order.",
 ["inputs"],"every value of every supported type within the packet size, including null/empty/negative/extreme values and all optional-field combinations, decoded into used objects",
 "The codec tests check a few fixed values per type.",
 [C+"common/OpcUaBinaryCodec.cpp",C+"common/OpcUaBinaryCodec.hpp",C+"common/OpcUaSduBuffer.cpp",C+"common/types/Variant.hpp"],
 [("operator<< / operator>> pairs","OpcUaBinaryCodec"),("read/write cursors","OpcUaSduBuffer")],
 ["decoded value and cursor vs original"])
p("U02","Encoded bytes follow the OPC UA binary specification",
 "For every supported value the encoder produces exactly the bytes that the OPC UA binary encoding prescribes (little-endian integers, IEEE floats, length-prefixed strings and arrays with -1 for null, compact node id forms, encoding masks, field order of headers and services), and the decoder accepts every such encoding, including the alternative node id forms another implementation may choose.",
 ["inputs"],"every value of every supported type, judged by an independently written encoder",
 "The tests compare a handful of byte patterns and mostly only round-trip.",
 [C+"common/OpcUaBinaryCodec.cpp",C+"common/OpcUaBinaryCodec.hpp",C+"common/types/DataType.hpp"],
 [("encoding masks and compact forms","NodeId/ExpandedNodeId/Variant/DataValue/LocalizedText/DiagnosticInfo operators"),("struct field order","StructType")],
 ["encoded bytes vs reference encoder"])
p("U03","Decoding arbitrary bytes is memory-safe and fails cleanly",
 "Decoding any byte sequence as any supported type either yields a value built only from those bytes or fails with an ordinary exception, as it does for truncated encodings and for node id forms and variant types the standard does not know; it never reads or writes outside the buffer, never terminates the process, and never allocates more than a small multiple of the input. Encoding a value that does not fit the packet likewise fails with an exception.",
 ["inputs"],"every byte sequence and length, truncated and mutated valid encodings, hostile lengths and masks",
 "No existing test feeds a malformed or truncated encoding.",
 [C+"common/OpcUaBinaryCodec.cpp",C+"common/OpcUaBinaryCodec.hpp",C+"common/OpcUaSduBuffer.cpp"],
 [("bounds checks on every read and write","OpcUaSduBuffer"),("length validation","OpcUaBinaryCodec String/ByteString/array decoding")],
 ["sanitizer reports, exceptions, allocation sizes"])
p("U04","OPC UA TCP handshake and framing are independent of segmentation",
 "The server acknowledges a client only after one complete, well-formed hello and answers it with exactly one acknowledge; afterwards each complete frame is acted on exactly once, in order and with exactly its content, however the stream is split or joined. Anything else first, an unknown frame type, or a frame with an impossible length closes that connection.",
 ["inputs","schedules"],"any segmentation and coalescing of any frame sequence, all frame sizes, frames in any state",
 "The server transport component has no tests; the separate connection library tests deliver whole frames from mocks.",
 [U+"transport/server/UaTcpConnection.cpp",U+"transport/server/UaTcpConnectionReceiveHello.cpp",U+"transport/server/UaTcpConnectionConnected.cpp"],
 [("frame accumulation","UaTcpConnection::receive"),("hello/acknowledge","UaTcpConnection::receiveHello/sendAcknowledge"),("dispatch by frame type","UaTcpConnection::receiveSecuredMessage")],
 ["bytes in, messages forwarded, bytes out, link closed"])
p("U05","Secure channels accept only their own connection, token and next sequence number",
 "A message is passed on to the services only if it came over the connection that opened the channel, names that channel and its current token, and carries the next sequence number; otherwise nothing is forwarded and the connection is closed. Open channels have distinct ids, responses carry the channel's id, current token and consecutive sequence numbers, and renewing keeps the channel while closing ends it for good. Nothing still under way for an ended connection or channel affects a later one.",
 ["inputs","histories","schedules"],"any interleaving of opens, renewals, messages, closes and disconnects of many clients with right and wrong ids, tokens and sequence numbers",
 "The secure channel component has no tests.",
 [U+"securechannel/channel/UaServerSecureChannel.cpp",U+"securechannel/channel/UaServerSecureChannelEstablished.cpp",U+"securechannel/UaSecureChannel.cpp",U+"transport/server/UaTcpConnection.cpp"],
 [("token/sequence/connection checks","UaServerSecureChannel::receive"),("channel pool","UaSecureChannel")],
 ["frames sent by clients vs frames answered/forwarded"])
p("U06","Session services are only served to the channel that activated the session",
 "A read request is answered only if it arrives on the secure channel on which a currently open session was most recently activated; before activation, after the session was closed, or from any other channel it is not answered. A session can be first activated only, and closed only, by the channel it belongs to (which no later channel inherits), a non-existing session token has no effect, and simultaneously open sessions have distinct ids.",
 ["inputs","histories","schedules"],"any interleaving of create/activate/read/close over several channels with right, foreign, stale, out-of-range and malformed tokens",
 "The service component has no tests.",
 [U+"service/session/UaSessionService.cpp",U+"service/session/UaSession.cpp",U+"service/session/UaSessionCreated.cpp",U+"service/session/UaSessionActivated.cpp",U+"service/attribute/UaRead.cpp"],
 [("session token lookup","UaSessionService::receive"),("session/channel binding","UaSession::receive"),("association of session to channel","UaServerSecureChannel")],
 ["responses per request on the wire"])
p("U07","Every OPC UA answer goes to its requester with matching ids",
 "Every valid service request on an authorised channel gets exactly one response of the corresponding type, on the same connection and channel, echoing the request id and request handle, carrying good status, the current UTC time in OPC UA ticks and the channel lifetime, session timeout and message size that were requested, and, for the service responses of a connection, in request order. No client ever receives a response caused by another client's request, and discovery always offers the same complete endpoint description.",
 ["inputs","histories","schedules"],"any mix of services from many concurrent clients with any ids and handles, pipelined or not, any scheduling of the three components",
 "The components have no tests; nothing checks several clients or several outstanding requests.",
 [U+"service/UaService.cpp",U+"service/session/UaSession.cpp",U+"service/discovery/UaGetEndpoints.cpp",U+"service/attribute/UaAttributeService.cpp",U+"securechannel/channel/UaServerSecureChannel.cpp","src/app/common/utils/TimeUtils.hpp"],
 [("message header copied through the layers","UaEncodedMessageHdr"),("service dispatch by type id","UaService::receive"),("timestamp conversion","getCurrentDateTime")],
 ["decoded responses per connection vs requests"])
p("U08","OPC UA connections, channels and sessions are conserved",
 "Every connection, secure channel and closed session is given back exactly once however it ended (client close, disconnect at any moment, protocol error, malformed message, idle timeout, subsystem release), and each becomes usable by later clients. After any history in which all clients are gone the server again accepts its full number of connections and channels.",
 ["histories","fault_sequences","schedules"],"any churn of clients ending in any way at any protocol step, any component scheduling",
 "The components have no tests; no resource life cycle is covered.",
 [U+"transport/server/UaTcpServer.cpp",U+"transport/server/UaTcpConnection.cpp",U+"securechannel/UaSecureChannel.cpp",U+"securechannel/channel/UaServerSecureChannelInit.cpp",U+"service/session/UaSessionService.cpp",C+"common/UaEntityPool.hpp"],
 [("fixed pools with free lists","UaEntityPool"),("release notifications between components","MsgUaConnectionReleaseInd/Req")],
 ["capacity probes after churn, live links/timers"])
p("U09","A hostile OPC UA client cannot crash the server or disturb other clients",
 "Whatever bytes a client sends in whatever state, the server neither crashes nor touches memory out of bounds, nor acts on or sends memory that was never written, nor allocates without bound, and at most closes that client's connection. Other clients' open connections, channels and sessions keep working exactly as if the hostile client were absent (a client that presents the secret token of an activated session counts as that session's owner).",
 ["inputs","histories","schedules"],"arbitrary and mutated byte streams on any number of connections interleaved with well-behaved clients",
 "No existing test sends hostile input to the server components.",
 [U+"transport/server/UaTcpConnection.cpp",U+"securechannel/channel/UaServerSecureChannel.cpp",U+"service/UaService.cpp",C+"common/OpcUaBinaryCodec.cpp"],
 [("length and type checks","UaTcpConnection::receive"),("exception containment per event","Reactor::onFdEvent, Epoll::wait")],
 ["sanitizer reports, victim clients' transcripts"])
p("U10","Connection library reports each outcome once and delivers frames faithfully",
 "A client or server connection object of the protocol library reports established, message and error outcomes truthfully: established exactly once and only after a valid hello/acknowledge exchange, each received frame once with exactly its content, and a failure, refusal, malformed frame or connect/handshake timeout as exactly one error. An established connection that exceeds its 10 s limit is closed and reported closed once, and closing it by the user reports nothing; after any end nothing more is reported, no resource is held and the object can be used again. What it sends is exactly the handshake and the frames it was asked to send.",
 ["inputs","histories","fault_sequences"],"any peer bytes and segmentation, link errors and timeouts at any step, connect errors",
 "The tests replay single scripted mock exchanges of whole frames, a few outcomes each.",
 [C+"protocols/connection/ClientConnection.cpp",C+"protocols/connection/ServerConnection.cpp",C+"protocols/connection/OpcUaConnection.cpp"],
 [("connection state machines","ClientConnection*/ServerConnection* states"),("frame accumulation","OpcUaConnection")],
 ["handler callbacks, link bytes, timer/link liveness"])
p("U11","Secure channel library opens, exchanges and fails channels consistently",
 "A server secure channel object of the protocol library reports the channel open only after a well-formed open request and answers it with matching request id and handle, then delivers each message that carries the right channel, token and next sequence number exactly once with exactly its content and sends replies in correctly numbered frames. A valid close request is reported once as closed; any other input, and any failure of the underlying connection, is reported as exactly one error, after which nothing more is reported or sent and no resource is held until the channel is opened again.",
 ["inputs","histories"],"any order and content of secured frames and connection events",
 "The secure channel library has no tests.",
 [C+"protocols/secure/OpcUaServerSecureChannel.cpp",C+"protocols/secure/OpcUaServerSecureChannelEstablished.cpp",C+"protocols/secure/OpcUaClientSecureChannel.cpp"],
 [("secure channel state machine","OpcUaServerSecureChannel*"),("token and sequence checks","OpcUaServerSecureChannelEstablished")],
 ["handler callbacks and frames sent"])
p("C01","Start brings the whole system into service and stop takes it down cleanly",
 "A start request to the stopped system brings up every subsystem exactly once, so that afterwards Modbus polling and the OPC UA endpoint serve clients end to end; a stop request to the running system releases every subsystem exactly once and returns all listeners, connections and timers. Any sequence of start and stop requests, at any moment of an earlier start or stop, leaves the system in the state the last request asked for, without crash or leak.",
 ["schedules","histories"],"any sequence and timing of start/stop requests, requests that repeat or overtake an unfinished start or stop, repeated cycles",
 "The controller and the deployed system have no tests.",
 ["src/app/controller/ControllerComponent.cpp","src/app/controller/ua/UaController.cpp","src/app/controller/modbus/ModbusTestController.cpp","src/app/Deployer.cpp"],
 [("per-subsystem start/stop state machines","UaController*, ModbusTest*"),("deployment","Deployer")],
 ["messages between controller and subsystems; loopback clients"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
print(len(P))
