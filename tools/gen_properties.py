#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

LOCK="device/src/lock.rs"; STAT="device/src/status.rs"
RAW="raw/src/server/mod.rs"; TEL="telnet/src/server/mod.rs"
HS="hislip/src/server/mod.rs"; HSS="hislip/src/server/session/synchronous.rs"; HSA="hislip/src/server/session/asynchronous.rs"; HSM="hislip/src/server/session/mod.rs"; HM="hislip/src/common/messages.rs"
VC="vxi11/src/server/vxi11/core_service.rs"; VM="vxi11/src/server/vxi11/mod.rs"; VA="vxi11/src/server/vxi11/abort_service.rs"; VI="vxi11/src/server/vxi11/intr_client.rs"
RPC="vxi11/src/common/onc_rpc/mod.rs"; REC="vxi11/src/common/onc_rpc/record.rs"; RX="vxi11/src/common/onc_rpc/xdr.rs"; XB="vxi11/src/common/xdr/basic.rs"
PM="vxi11/src/server/portmapper.rs"; PC="vxi11/src/client/portmapper.rs"

p("C01","A lock held by one client excludes every other client from the device",
  "While a client of any protocol (raw socket, telnet, VXI-11, HiSLIP, or a lock handle used directly) holds an exclusive lock on a device, no command, trigger, clear or remote/local operation that another client submits after the lock was granted reaches the device until the lock is released, and once the holder has used the device no other client's operation comes between its operations. While only shared locks are held, the same protection applies against every client that does not hold one of them. Two device operations never overlap in time.",
  ["schedules","histories","fault_sequences"],
  "for every interleaving of lock, unlock, disconnect and device operations of any number of clients over all protocols sharing one device",
  "The lock tests take and release locks in one fixed order on one task; nothing runs a waiting client against a lock that is granted at the moment the device becomes free, and no test mixes protocols.",
  [LOCK,RAW,TEL,VC,HSS,HSA],
  [("SharedLock / LockHandle::can_lock",LOCK),("LockHandle::async_lock waits for device and lock state",LOCK),("lock_device! macro",VC)],
  ["Device trait method calls","lock replies on the wire"],
  [("SharedLock.exclusive_lock / shared_lock / num_shared_locks","who may use the device",LOCK)])
p("C02","Lock handles behave like one sequential shared/exclusive lock",
  "Any concurrent history of acquire (exclusive, or shared with a key), release, drop and lock-info operations on the handles of one device is explained by a sequential lock: an exclusive lock is granted only when nobody else holds any lock except that a shared holder may upgrade, a shared lock is granted only when no lock is held or the same key is held, a release frees exactly what that handle held and reports what it was, and the reported exclusive flag and shared-holder count are exact. A failed or cancelled acquire changes nothing.",
  ["schedules","histories"],
  "for every concurrent history of lock operations by any number of handles, including acquires cancelled at any await point",
  "Tests check a handful of fixed two- and three-handle sequences; they never cancel a waiting acquire or run handles on different threads.",
  [LOCK],[("try_acquire_exclusive / try_acquire_shared / try_release",LOCK),("Drop for LockHandle",LOCK)],["return values and lock_info() of LockHandle / RemoteLockHandle"],
  [("has_shared / has_exclusive","what one handle holds",LOCK)])
p("C03","Clients waiting for a lock or the device always get it once it is free",
  "Whenever the locks that stand in the way of a waiting acquire or a waiting device operation have been released, and the device is idle, the waiter proceeds; no wakeup is lost and no set of clients blocks itself for ever, whatever the order in which the locks are taken, released, cancelled or abandoned.",
  ["schedules","histories","fault_sequences"],
  "for every interleaving of waiters, releases, cancellations and disconnects, on one or several executor threads",
  "A lost wakeup or lock-order deadlock needs a release to land between a check and a registration, or two tasks to take two locks in opposite order; the tests drive one waiter with a fixed order of polls.",
  [LOCK,HSS,HSA,VC],[("listen / notify_release / notify_acquired",LOCK),("RemoteLockHandle::async_acquire",LOCK)],["completion of async_lock / async_acquire and of client requests"])
p("C04","Ending a session releases every lock and lets others in",
  "When a client goes away - an orderly close, a connection reset, loss of one of its two HiSLIP channels, destruction of its VXI-11 link or the end of its connection - every lock it held and every lock request it was still waiting on is given up, so that other clients can use and lock the device.",
  ["schedules","crash_points","fault_sequences"],
  "for a disconnect at every point of a session, including while it waits for a lock, executes, or writes a response",
  "No test disconnects a client that holds or waits for a lock and then looks at another client.",
  [LOCK,RAW,TEL,VC,VM,HS,HSM,HSS,HSA],[("Drop for LockHandle",LOCK),("Link::close / Drop for Link",VM),("close_session",HS)],["lock_info, lock requests of a second client"])
p("C05","A lock request that fails or times out is reported and leaves nothing behind",
  "A lock request or lock-protected operation that cannot be satisfied is answered with failure - immediately if the client does not wish to wait, otherwise neither before nor much after the timeout it asked for (unless aborted) - has no effect on the device, and leaves no lock, link or queue entry behind; one that can be satisfied within its timeout succeeds.",
  ["schedules","histories","fault_sequences"],
  "for every timeout value and every order of release, timeout, cancellation and abort",
  "Timeouts racing with releases need a controlled clock; the tests have no lock timeout at all.",
  [LOCK,VC,HSA],[("lock_device! timeout",VC),("AsyncLock timeout",HSA),("CREATE_LINK lock_timeout",VC)],["VXI-11 error codes, AsyncLockResponse codes, simulated time of replies"])
p("C06","Raw socket: each terminated command is executed once, whole and in order",
  "On a raw socket connection the device executes exactly the sequence of terminated commands the client sent, each once, without its terminator and unaltered, however the byte stream is split or delayed, and the client receives exactly the responses in the same order each followed by the configured terminator. A command that was not terminated before the connection ended is not executed, and no bytes of one client reach another client's commands or responses.",
  ["inputs","schedules","fault_sequences"],
  "for every sequence of commands, segmentation of the stream, buffer size, terminator setting, short read/write and disconnect point",
  "Tests send one complete command in one write on a loopback socket.",
  [RAW],[("read_until + execute + write_all loop",RAW)],["Device::execute arguments","bytes received by the client"])
p("C07","Telnet: each line is executed once, whole and in order",
  "On a telnet connection the device executes exactly the lines the client typed, with line ends removed, erase-character and erase-line applied, and option negotiation and escaped 0xFF bytes handled, however the byte stream is split, and the client receives the escaped responses in order each followed by CR LF. An unterminated line is not executed, and the session ends when the client's side of the connection ends.",
  ["inputs","schedules","fault_sequences"],
  "for every sequence of lines, telnet commands and negotiations, every segmentation and every disconnect point",
  "The test sends one line in one segment and never closes the connection from the client side.",
  [TEL],[("Parser::receive event loop",TEL)],["Device::execute arguments","bytes received by the client","end of the session future"])
p("C08","VXI-11: written messages and read responses are exact",
  "On a VXI-11 link the device executes exactly the concatenation of the write blocks up to each END flag, once, and successive reads return exactly the bytes of the link's responses in order, each read stopping at the requested size, the termination character or the end of the response, with exactly the reason bits that apply. A write acknowledges the bytes it took; nothing leaks between links.",
  ["inputs","histories","schedules","fault_sequences"],
  "for every sequence of writes and reads with any sizes, flags and termination characters on any number of links and connections",
  "Tests write one block and read it back whole; no test uses a termination character or partial reads.",
  [VC,VM],[("DEVICE_WRITE in_buf / END",VC),("DEVICE_READ request_size, termchar, reason",VC)],["Device::execute arguments","DeviceReadResp"])
p("C09","RPC servers answer each call once, with its xid, and contain errors",
  "An RPC server answers each complete call record with exactly one reply carrying that call's xid, in order, independent of how the record is fragmented or the stream is segmented; unknown programs, versions and procedures, wrong RPC versions and undecodable arguments get the corresponding RPC error and do not disturb later calls. A record or argument that is truncated or oversized is never executed.",
  ["inputs","schedules","fault_sequences"],
  "for every sequence of well-formed, malformed, truncated and oversized calls under every record fragmentation and stream segmentation",
  "Unit tests decode fixed buffers from memory; no test sends a fragmented, truncated or erroneous call to a server.",
  [RPC,REC,RX,VC,VA,PM],[("read_record / write_record",REC),("handle_message",RPC),("Opaque / String decoding",XB)],["reply records on the wire","Device method calls"])
p("C10","HiSLIP: messages and responses are transferred exactly",
  "On an open HiSLIP session the device executes exactly the concatenation of Data payloads up to each DataEnd, once and in order, and each response arrives in order as Data messages closed by one DataEnd that carry the message id of the request, none larger than the maximum size the client announced. A message larger than the server accepts is refused without executing any part of it and without disturbing later messages; a message truncated by a disconnect is never executed.",
  ["inputs","histories","schedules","fault_sequences"],
  "for every sequence of Data, DataEnd and Trigger messages with any sizes, any maximum message sizes, any segmentation and any disconnect point",
  "The tests exchange one short query in a single message.",
  [HSS,HM,HSA],[("Message::read_from / write_to",HM),("Data / DataEnd handling",HSS)],["Device::execute arguments","messages received by the client"])
p("C11","HiSLIP device clear always completes and discards stale data",
  "A HiSLIP client that performs the device clear handshake always gets both acknowledgements, whatever the server was doing; input received before the clear is never combined with input sent after it, no response to a message sent before the clear arrives after the clear acknowledgement, and the device is cleared. The session is fully usable afterwards, any number of times.",
  ["schedules","histories","fault_sequences"],
  "for every point at which a clear can arrive relative to partial input, execution and a response being sent in pieces",
  "The only clear test clears an idle session.",
  [HSS,HSA,HSM],[("clear channel between asynchronous and synchronous session",HSM),("chunked response loop",HSS)],["DeviceClearAcknowledge, Device::clear, Device::execute arguments"])
p("C12","HiSLIP sessions are unique, paired, bounded and reusable",
  "Every session open at the same time has a distinct id; an asynchronous channel joins only an existing session and only one can, with the session working for that client alone; device operations are refused until both channels exist; unknown sub-addresses and connections beyond the configured maximum are refused with the matching fatal error; and a closed session frees its place for a new one.",
  ["schedules","histories","fault_sequences","configurations"],
  "for every interleaving of connects, initialisations, refused initialisations and disconnects up to and beyond the session limit",
  "The tests open one or two sessions one after the other; the second asynchronous channel and session reuse after disconnects are never exercised.",
  [HS,HSM],[("create_session / get_session / close_session",HS),("SessionState",HSM)],["InitializeResponse, AsyncInitializeResponse, FatalError messages"])
p("C13","HiSLIP service requests reach every session and never break it",
  "When the device raises a status event with the service-request bit, every fully connected HiSLIP session that is not already signalling one receives an AsyncServiceRequest carrying that status byte; a session is sent no service request that the device did not raise. Status events, in any number and at any time, never close a session or disturb its other traffic.",
  ["schedules","histories","fault_sequences"],
  "for every sequence and timing of status events relative to connects, queries, locks and disconnects",
  "The tests send at most one event to one idle session.",
  [HSA,STAT,HS],[("status receiver per connection",HS),("srq select! arm",HSA)],["AsyncServiceRequest messages"])
p("C14","VXI-11 service requests go to exactly the links that enabled them",
  "After a VXI-11 client has created an interrupt channel and enabled service requests on a link, each device status event reaches that channel as an interrupt call carrying the handle given for that link; none is sent for a link before it enables, or after it disables, destroys the link, destroys the channel or disconnects. Failures of the interrupt channel never disturb the core connection.",
  ["schedules","histories","fault_sequences"],
  "for every interleaving of enable, disable, destroy, disconnect and status events, over TCP and UDP interrupt channels with connection failures",
  "There is no test of the interrupt channel.",
  [VC,VI,STAT],[("DEVICE_ENABLE_SRQ task",VC),("VxiSrqClient",VI)],["device_intr_srq calls received by the client"])
p("C15","One client can never stop or corrupt the service of another",
  "Whatever bytes a client sends, and however it stalls, stops reading, half-closes or disappears, the server does not panic or stop, and every well-behaved client (of the same or another protocol on the same device, when the misbehaving one holds no lock) continues to get correct answers within bounded time.",
  ["inputs","schedules","fault_sequences"],
  "for every byte stream, stall, reset and disappearance of a misbehaving client at every point of the protocol, on one or more executor threads",
  "Tests contain no misbehaving client.",
  [RAW,TEL,VC,VM,RPC,HS,HSS,HSA,HM],[("per-connection tasks",RAW),("device guard scope",HSS)],["responses to the well-behaved client","panics"])
p("C16","Listeners survive connection failures and enforce their limits",
  "A listening server keeps accepting after any transient failure of accepting or setting up a connection, never serves more clients at once than its configured limit, and serves a waiting client as soon as an earlier one has gone, whatever the way it went. Servers listen on the ports they were configured with.",
  ["fault_sequences","schedules","configurations"],
  "for every sequence of connects, disconnects and accept or socket-setup failures, under every limit",
  "Accept errors and connections that die before they are accepted cannot be produced in the tests, which use loopback sockets.",
  [RAW,TEL,VC,VA,PM,HS],[("backpressure / handle_errors",RAW),("accept loop",HS)],["connections served"])
p("C17","Memory use stays bounded over long histories",
  "A server's memory depends on the clients and data it currently serves and not on the length of its history: repeating any mix of connects, disconnects, commands, locks, failed locks, service requests and links any number of times does not make it grow.",
  ["histories","fault_sequences"],
  "for arbitrarily long repetition of every kind of operation and of every way a session can end",
  "Tests are short; growth per operation is invisible in them.",
  [LOCK,STAT,VM,VC,HS,RAW,TEL],[("notify_* drains waiters",LOCK),("send_status prunes closed receivers",STAT),("remove_link / close_session",VM)],["live heap bytes per round"])
p("C18","Status reads are truthful and available when promised",
  "A status query returns the device's status byte with the message-available bit replaced by whether a response is waiting for that client; a HiSLIP client obtains its status even while another client holds a lock or while its own command waits for one.",
  ["schedules","histories","inputs"],
  "for every device status byte, state of the output queue and lock state",
  "No test reads the status with a response pending or under a lock.",
  [VC,HSA],[("DEVICE_READSTB MAV replacement",VC),("AsyncStatusQuery",HSA)],["DeviceReadStbResp, AsyncStatusResponse"])
p("C19","Port mapper lookups and registrations are answered correctly under faults",
  "The static port mapper answers null, get-port and dump calls over TCP and UDP exactly from its table, keeps serving after malformed, truncated, lost or duplicated requests, and the port mapper client returns only the answer to its own call, succeeding or failing but never reporting another call's answer. A server that registers itself reports success exactly when the port mapper has accepted both its services under their ports.",
  ["inputs","schedules","fault_sequences"],
  "for every table, sequence of requests, malformed datagram, loss, duplication and reordering of datagrams",
  "Tests make one call over an in-memory or loopback transport without faults.",
  [PM,PC,RPC,REC],[("StaticPortMap::call",PM),("serve_udp_socket",RPC),("UdpRpcClient::call / StreamRpcClient::call",RPC)],["RPC replies","results of PortMapperClient calls"])
p("C20","Trigger, clear and remote/local requests reach the device exactly once",
  "Each accepted trigger, clear, remote, local or local-lockout request of a VXI-11 or HiSLIP client causes exactly the corresponding device call with the corresponding argument, in order with the client's other requests, and its reply reports the device's own success or failure; a refused request causes none.",
  ["histories","schedules","fault_sequences"],
  "for every sequence of requests, device failures, lock states and concurrent clients",
  "Tests send a single trigger or clear and do not look at the device.",
  [VC,HSS,HSA],[("DEVICE_TRIGGER / CLEAR / REMOTE / LOCAL",VC),("RemoteLocalControl",HSA)],["Device trait method calls","replies"])
p("C21","Status events are broadcast in order and never block the sender",
  "Every status event is delivered to every live receiver that has room, at most once each and in the order sent, to receivers created before the event only; a receiver that is slow, full or dropped affects neither the sender nor the other receivers.",
  ["schedules","histories"],
  "for every interleaving of sends, receives, new receivers and dropped receivers",
  "The only test sends one event to two receivers that are then polled once.",
  [STAT],[("Sender::send_status / get_new_receiver",STAT)],["items received by each Receiver"])
p("C22","A VXI-11 abort ends exactly the operation in progress on that link",
  "An abort of a link that is waiting for a lock makes that operation fail at once with the abort error; an abort of an idle link has no effect on later operations, of another link none at all, and of an unknown or destroyed link is answered with the invalid-link error. The abort is answered even while core operations wait.",
  ["schedules","histories"],
  "for every timing of the abort relative to the operations of all links",
  "No test waits for a lock, so none can abort.",
  [VA,VC,VM],[("abort channel per link",VM),("lock_device! select!",VC)],["replies to the aborted operation and the abort call"])
p("C23","VXI-11 link identifiers are unique and valid exactly while the link exists",
  "Every link open at the same time on a server has a distinct identifier; operations are accepted only from the connection that created the link and only until it is destroyed, and any other identifier is answered with the invalid-link error without touching any device; creating a link for an unknown device name fails and creates nothing.",
  ["histories","schedules","inputs"],
  "for every interleaving of link creation, destruction, use and disconnect on any number of connections",
  "The tests create one link and destroy it.",
  [VC,VM],[("new_link / remove_link / next_link_id",VM),("per-connection link map",VC)],["VXI-11 replies"])
p("C24","Lock replies tell clients the truth",
  "A HiSLIP or VXI-11 client that is told it holds a lock does hold it, one that is told it does not (or released it) does not, a release reports which kind of lock was released, releasing or re-requesting inappropriately is answered with the matching error, and lock-info replies give the current exclusive flag and number of holders.",
  ["schedules","histories"],
  "for every history of lock, unlock and lock-info requests by any number of clients of both protocols",
  "The tests make one lock and one unlock per protocol on an otherwise idle device.",
  [HSA,VC,LOCK],[("AsyncLock request/release",HSA),("DEVICE_LOCK / DEVICE_UNLOCK",VC)],["AsyncLockResponse, AsyncLockInfoResponse, VXI-11 error codes"])
p("C25","HiSLIP protocol errors are answered and contained",
  "A HiSLIP message with an unknown type, a misplaced type or an unknown vendor code is answered with one non-fatal Error and the session goes on undisturbed; a malformed header or a forbidden operation is answered with a FatalError of the matching code and that connection is closed; neither has any effect on the device or on other sessions.",
  ["inputs","histories","schedules"],
  "for every message type, control code, parameter and payload at every point of a session on either channel",
  "The tests send no invalid message.",
  [HS,HSS,HSA,HM],[("send_fatal! / send_nonfatal!",HM),("Message::read_from",HM)],["Error and FatalError messages"])
p("C26","XDR and message encodings round-trip",
  "Decoding the encoding of any VXI-11, RPC or port mapper value gives the value back, and encodings follow the published wire format.",
  ["inputs"],"for every value of every wire type",
  "Tests encode and decode single values.",
  [XB,"vxi11/src/common/vxi11/xdr.rs",RX,"vxi11/src/common/portmapper/xdr.rs"],[("XdrEncode / XdrDecode",XB)],["encoded bytes"])
p("C27","Error codes map one to one to their wire values",
  "Every fatal, non-fatal, device and RPC error code converts to its published wire value and back without collision.",
  ["inputs"],"for every code",
  "Tests do not enumerate the codes.",
  ["hislip/src/common/errors.rs","vxi11/src/common/vxi11/xdr.rs"],[("error_code / from_error_code","hislip/src/common/errors.rs")],["code values"])
p("C28","HiSLIP negotiation tells each client the truth and binds only its session",
  "Whatever other sessions negotiate meanwhile, InitializeResponse carries the lower of both protocol versions and the mode the server is configured to prefer, AsyncInitializeResponse the configured vendor id, AsyncMaximumMessageSizeResponse the configured message size, and the device clear answers the preferred mode and the mode the client asked for, never promising a feature (encryption) the server does not have. What one client announces - maximum message size, features, version - applies to its own session only, and from the message after its answer on.",
  ["inputs","histories","schedules"],
  "for every version, size and feature request of any number of sessions, at any point of their life",
  "The tests open one session with one version and never look at the control code, a feature bit or a second session.",
  [HS,HSA,HSS,HM],[("Initialize / AsyncInitialize",HS),("AsyncMaximumMessageSize, AsyncDeviceClear",HSA),("acknowledge_device_clear",HSS)],["control codes and parameters of the answers","sizes of response messages"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
