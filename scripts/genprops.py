#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","No byte sequence can crash the decoders",
 "Decoding any byte sequence of any length, whether as a serial frame, as a message or as the payload of any single message or report, never panics: malformed or truncated input yields an error, an 'invalid' or 'need more bytes' answer, or a value. Rendering any successfully decoded report as text, or any command, function or duration code as its name, never panics either.",
 ["inputs"],"all byte slices of all lengths (including empty, truncated, over-long and inconsistent inner lengths) given to each exported decoder",
 "The tests feed some forty well-formed or mildly broken frames; the crash space is every length combined with every inner length byte, and one uncovered combination kills the process because decoding runs in the port-reading goroutine.",
 ["serialapi/message.go","serialapi/application_command_handler.go","serialapi/discovery_nodes.go","serialapi/get_node_protocolinfo.go","commands/duration.go","commands/constants.go","serialapi/types.go","commands/reports/*.go"],
 [("frame and message decoder with length guards","serialapi/message.go Decode, NewMessage"),("payload decoders","serialapi/New*; commands/reports New*")],
 observe=["return values of the exported decoders"])

p("C02","No received byte stream can crash the receive and delivery path",
 "Whatever bytes arrive on the port and however they are split into reads, the goroutines that read the port, match answers to requests, hand answers to waiting callers, run discovery or identification and apply reports to nodes never panic. In particular unexpected, missing or undecodable answers are handled as errors.",
 ["inputs","histories"],"all byte streams and chunkings, all sets of outstanding requests, all answers including none",
 "The connection tests replay a handful of well-formed exchanges; the failing cases are frames with a valid checksum but short or unknown content arriving while requests with other expectations are outstanding.",
 ["connection.go","controller.go","nodes/*.go"],
 [("reader loop, request matching and answer delivery","connection.go Reader, Match, MatchByteAt, WriteAndWaitForReport"),("answer consumers","controller.go getNodes, DeliverReportToNode; nodes/ Request*, ProcessEvent, Identify")],
 observe=["process survival"])

p("C03","A frame is accepted only with a valid checksum and only from its own bytes",
 "A start-of-frame message is passed on only if all of its declared bytes are present and its checksum byte equals the complement of the exclusive-or of exactly the bytes from its length byte to its last payload byte; otherwise the decoder answers 'invalid' or 'need more bytes' without a message. What is decoded depends only on the bytes of that frame, never on bytes buffered behind it, and ACK, NAK and CAN always consume exactly one byte. Decoding never modifies the caller's buffer.",
 ["inputs"],"all buffers, with any number of further bytes following the frame",
 "Tests decode one frame per buffer and check four checksum cases; acceptance must hold for each of 256 lengths and for anything buffered after the frame.",
 ["serialapi/message.go"],
 [("length and checksum gate in front of message decoding","serialapi/message.go Decode"),("checksum","serialapi/message.go GenerateChecksum")],
 observe=["return values of the frame decoder","the caller's buffer"])

p("C04","Every supported report is dispatched to its own decoder, anything else errors",
 "For every command class, command byte and payload length the report factory either returns a report of the type documented for that combination (alarm report, manufacturer report, endpoint report, multilevel sensor report, binary and multilevel switch reports of one- and three-byte form, wake-up) or returns an error; it never returns neither or both, and never a report of another type.",
 ["inputs"],"all 256 x 256 class and command values and all payload lengths and contents",
 "The factory test samples one combination per report; the guarantee ranges over all 65536 class/command pairs times lengths.",
 ["commands/reports/report.go"],
 [("report factory","commands/reports/report.go New")],observe=["return values of the report factory"])

p("C05","Every decoded field carries exactly its documented payload bits",
 "Each field of a decoded message or report equals its documented function of the documented payload bits for every payload: message header bytes, node-list bits, protocol-info capability flags, version, baud and device classes, alarm bytes, manufacturer ids as four hex digits, endpoint flags and count, switch states, targets, durations and validity, multilevel levels capped at 100, and sensor type, size, scale and precision.",
 ["inputs"],"all payloads accepted by each decoder, all fields",
 "Field tests use one to three payloads each; a wrong mask, offset or shared bit shows only for particular bit patterns.",
 ["serialapi/*.go","commands/reports/*.go"],
 [("field extraction","serialapi/New*; commands/reports/New*")],observe=["fields of decoded values"])

p("C06","Sensor values are sign-extended, big-endian and scaled by their precision",
 "A decoded multilevel sensor value equals the signed big-endian integer formed by exactly the declared number of value bytes (one, two or four) divided by ten to the power of the declared precision, for every payload. Payloads shorter than declared are rejected.",
 ["inputs"],"all payloads, sizes 1, 2 and 4, precisions 0 to 7, negative and extreme values",
 "Tests sample positive two-byte readings; sign, width and scale errors appear only for negative values, other widths or other precisions.",
 ["commands/reports/sensor_multi_level.go"],
 [("sensor value decoding","commands/reports/sensor_multi_level.go NewSensorMultiLevel")],observe=["the decoded value"])

p("C07","Outgoing frames and commands are laid out and counted correctly",
 "For every payload short enough for a one-byte length, the transmitted frame is the start byte, the count of the bytes that follow it up to and including the checksum, the request type byte 0x00, the payload unchanged, and the complement of the exclusive-or of the count, the type byte and the payload. Every command builder emits send-data, the node's id byte, the number of command bytes that follow, then those bytes (switch commands are followed by the transmit-options byte 0x25, which is not counted); endpoint encapsulation prepends the multi-channel header with the endpoint id, keeps every original command byte and adds four to the count. Building or framing a command never changes the caller's bytes.",
 ["inputs"],"all payloads of up to 253 bytes, all node ids, endpoints and values",
 "Three fixed encodings are tested; the count and checksum must be right for every length and content.",
 ["serialapi/message.go","commands/*.go"],
 [("framing","serialapi/message.go CompileMessage, GenerateChecksum"),("command builders","commands/ Encode methods")],observe=["encoded bytes"])

p("C08","A dimmer command never carries a level outside 0 to 99",
 "For every requested level, including negative, huge, infinite and not-a-number values, the level byte of a multilevel switch command is between 0 and 99; requests of 99 or more send 99, requests below 1 (or not a number) send 0, and those in between send the integer part.",
 ["inputs"],"all float64 values",
 "Five values are tested; the special values (NaN, infinities, values just below 1 or above 99) are not.",
 ["commands/SwitchMultilevel.go","nodes/commands.go","nodes/endpoints.go"],
 [("clamp","commands/SwitchMultilevel.go SetValue")],observe=["encoded level byte"])

p("C09","Control calls send only a supported class, to the addressed node or endpoint",
 "Switching on, off or dimming a node sends at most one command, of a class the node supports (binary preferred over multilevel for on and off, multilevel only for levels), carrying the node's own id and the requested value; without a supported class nothing is sent. The same calls on an endpoint always send that command wrapped in multi-channel encapsulation carrying that endpoint's id and its parent node's id.",
 ["inputs","configurations"],"all nodes, endpoints, command-class sets and values",
 "No test calls these methods at all.",
 ["nodes/commands.go","nodes/endpoints.go"],
 [("class selection and sending","nodes/commands.go, nodes/endpoints.go On, Off, Level, Write")],observe=["messages handed to the connection"])

p("C10","The port only ever carries whole frames and single ACKs, one command at a time",
 "The only bytes written to the port are complete framed requests, each in one write, and single ACK bytes. Requests are written by a single writer, however often the connection is re-established, and the next request is not written until the previous one was acknowledged, refused or cancelled by the stick or its acknowledge time ran out.",
 ["schedules","histories"],"all interleavings of callers, reconnects and incoming traffic",
 "Tests issue one request at a time over one connection; interleaved requests and reconnects are never exercised.",
 ["connection.go","gozwave.go"],
 [("single writer loop with outstanding-command wait","connection.go Connect, Writer"),("ACK write","connection.go Reader")],observe=["bytes written to the port"])

p("C11","Every waiting request gets its answer or a closed channel, exactly once",
 "A caller that sends a request with a timeout always gets a channel that later yields at most one matching answer and is then closed, or is closed on timeout or refusal: the timeout is armed for every such request, whoever removes a request from the outstanding set also closes its channel, nobody sends on or closes a channel twice, and a goroutine that waits on behalf of a caller always closes what the caller waits on. Whoever waits for a report is handed the report of the application command that answers its request. Requests that nobody waits for do not stay in the outstanding set forever.",
 ["schedules","histories","fault_sequences"],"all interleavings of answer, timeout, refusal, cancel and disconnect",
 "Tests cover one request with one immediate answer; the guarantee is about races among answer, timeout and refusal.",
 ["connection.go"],
 [("outstanding-request table, timeout worker and close","connection.go Writer, Reader, timeoutWorker, sendPackage.Close, WriteWithTimeout, WriteAndWaitForReport")],
 [("inFlight","requests awaiting an answer","connection.go Connection"),("returnChan","channel the caller waits on; nil once closed","connection.go sendPackage")],observe=["channels returned to callers"])

p("C12","An answer is delivered only to a request it matches",
 "A received frame completes an outstanding request exactly when its function equals the request's function (or is an application command answering a send-data request) and, except for protocol-info requests, its node, command class and expected report bytes equal those of the request wherever the request specifies them. A frame too short to contain a byte the request requires never matches. A frame is offered to every outstanding request it matches.",
 ["inputs"],"all frames and all requests",
 "Five combinations are tested; the condition ranges over all frame contents and lengths.",
 ["connection.go"],
 [("matching","connection.go Match, MatchByteAt, newSendPackage")],observe=["which outstanding request completes"])

p("C13","The reader stays in step with the byte stream and acknowledges each valid frame",
 "After each decoding step the reader discards exactly the bytes the decoder consumed (one byte after an invalid start or checksum, the whole frame otherwise), keeps incomplete frames for the next read (incomplete bytes older than 40 ms are discarded), and always makes progress. It writes exactly one ACK for every frame with a valid checksum and none for anything else, and hands every decoded application command, with its own node id, to the report callback.",
 ["inputs","schedules"],"all byte streams and chunkings",
 "Tests send single frames in single reads.",
 ["connection.go"],
 [("reader loop","connection.go Reader")],observe=["ACK bytes written","reports delivered"])

p("C14","Shared connection, list and node state is only touched under its lock",
 "All accesses to the mutable shared state of connections, requests, node lists and nodes, from any goroutine or exported method, hold the lock that protects it (exclusively for writes), so that no schedule contains a data race or a fatal concurrent map access. Locks are never copied, and shared maps are never handed out to callers unprotected.",
 ["schedules"],"all interleavings of the library's own goroutines and of concurrent callers of the exported methods",
 "The tests are effectively single-threaded and a race shows only under particular interleavings.",
 ["connection.go","controller.go","nodes/*.go"],
 [("mutexes embedded in the shared types","connection.go Connection, sendPackage; nodes/list.go List; nodes/node.go Node")],observe=["memory accesses"])

p("C15","Locks are always released, never re-acquired and never held while blocking",
 "Every lock taken by the library is released on every path out of the function that took it, no goroutine acquires a lock it already holds, locks are always nested in one global order, and no operation that can block without bound (a channel operation without a time-out, waiting for a request's answer, reading the port) runs while a lock of the library is held.",
 ["schedules"],"all paths through all functions and all interleavings",
 "A deadlock or leaked lock needs a particular early-exit path or interleaving that no test takes.",
 ["connection.go","controller.go","nodes/*.go"],
 [("lock/unlock pairs","all users of the embedded mutexes")],observe=["progress"])

p("C17","Every change of a node's state is announced with that node's address",
 "Applying a report that changes a node's state always updates the documented state entries with the reported value and then announces an update carrying that node's own id; a decoded alarm is raised and later cleared, each with its own announcement. Announcing never blocks the announcer even if nobody reads events, and every announced update triggers the delayed configuration save.",
 ["inputs","histories","schedules"],"all reports of all supported types, any backlog of unread events",
 "No test applies reports to nodes.",
 ["nodes/node.go","controller.go"],
 [("report application","nodes/node.go ProcessEvent"),("event queue and save trigger","controller.go pushEvent, saveDebouncer")],observe=["node state maps","event channel"])

p("C18","A sleeping node is only interrogated once it is awake",
 "During identification every request addressed to the node itself (manufacturer, endpoints, states) is preceded by waiting until the node is awake; a listening node counts as always awake, and a wake-up report releases every waiter and re-arms waiting for the next sleep. Only the protocol information, answered by the controller, is requested without waiting.",
 ["schedules","histories"],"all identification histories, retries and wake-ups",
 "Identification is not tested; a skipped wait shows only with a sleeping node.",
 ["nodes/node.go"],
 [("awake wait before each stage","nodes/node.go Identify, isAwake"),("wake-up handling","nodes/node.go ProcessEvent")],observe=["messages handed to the connection"])

p("C19","Identification completes only with all stages done and keeps what it learned",
 "A node is marked identified only after protocol information, manufacturer data and endpoints (none to ask for when no command classes are known) were all obtained and the state of every class that has one was asked for; a failed stage is retried after a pause and never skipped. Its command classes then are the mandatory classes of its own generic and specific device class plus those of the device-database entry found under manufacturer, type and id in that order, and brand, product and description come from that same entry. What each of the first three stages learned is announced as an update of the node (which saves it) before identification waits or asks for anything else.",
 ["histories","fault_sequences"],"all sequences of stage successes and failures",
 "Identification is not tested; the failing histories involve retries after partial success.",
 ["nodes/node.go","database/mandatory.go"],
 [("identification loop","nodes/node.go Identify")],observe=["node fields","identified flag"])

p("C20","Saving the configuration is crash-safe and reports failures",
 "At every instant, including a crash or a failing write, the configuration file holds either the complete previous or the complete new configuration: new content is fully written, synced and closed under another name before it replaces the file. Every failure to encode, create, write, sync, close or rename is returned to the caller and leaves the previous file untouched.",
 ["crash_points","fault_sequences"],"a crash or I/O error at any point of saving",
 "No test saves; crash points and I/O errors cannot be sampled by unit tests.",
 ["controller.go"],
 [("configuration save","controller.go SaveConfigurationToFile")],observe=["file system operations"])

p("C21","Everything persisted about a node is restored by loading",
 "Each item of node and endpoint state that the library keeps across restarts (id, awake flag, manufacturer ids, brand, product, description, command classes, endpoints, boolean and numeric states) is written under a unique name and read back into the same place with the same type, at every nesting level; nothing transient such as connections, channels or locks is persisted.",
 ["inputs","histories"],"all nodes and configurations",
 "No test saves and reloads a configuration.",
 ["nodes/node.go","nodes/endpoints.go","nodes/list.go","controller.go"],
 [("serialised struct fields and the list's (un)marshaller","nodes/*.go, controller.go, database/types.go")],observe=["the configuration file"])

p("C22","A node is fully wired before anyone can see it",
 "Whenever a node is added to the controller's list or announced as discovered, its connection and event sink are already set, its id is the one announced (discovery position plus one), and its endpoints point back to it; the controller's own entry and inactive entries are skipped, and an already known node is kept, not replaced. A node is announced only once it can be found in the list, every node put into the list is announced, and the identification of the node of every active entry is started.",
 ["schedules","configurations"],"all discovery bitmaps, restarts with any saved configuration, and all interleavings with concurrent readers",
 "The single connect test observes one node after everything settled.",
 ["controller.go","nodes/list.go"],
 [("node creation, discovery and loading","controller.go getNodes, initNode, LoadConfigurationFromFile; nodes/list.go Add")],observe=["node list","discovery events"])

p("C23","A damaged configuration file never crashes the library",
 "Whatever the configuration file contains, including null or missing objects, nodes, maps and list elements, connecting does not panic and neither do later reports, control calls or identification on the loaded nodes; undecodable content is reported as an error by loading.",
 ["inputs"],"all file contents",
 "No test loads a configuration.",
 ["controller.go","nodes/*.go"],
 [("configuration load","controller.go LoadConfigurationFromFile; nodes/list.go UnmarshalJSON, Add")],observe=["process survival","load error"])

p("C24","The device database returns the record of exactly the device asked for",
 "For every manufacturer, type and id the lookup returns the record generated for exactly that device or nothing: each key leads to a record equal to the device definition with those ids in database/json (the first file in name order wins), and keys are unique and well-formed.",
 ["inputs"],"all keys and records of the generated database",
 "The database test looks up single devices out of several hundred generated records.",
 ["database/*.go","database/json"],
 [("generated lookup and records","database/devices.go")],observe=["lookup results"])

p("C25","Mandatory command classes match the device-class specification",
 "For every generic and specific device class the mandatory command classes returned are exactly those the specification table shipped with the library lists for it (classes the library has no name for, and groups whose specific type is 'not used', are left out), and a pair that is not listed yields none.",
 ["inputs"],"all 65536 generic/specific pairs",
 "One pair is tested.",
 ["database/mandatory.go","database/mandatory.txt"],
 [("generated table and lookup","database/mandatory.go GetMandatoryCommandClasses")],observe=["returned classes"])

p("C26","Protocol codes and their names agree and are unique",
 "Every command class and function code constant has a distinct value within its family, a non-empty name that belongs to that same constant, and no two codes share a name; unknown codes are rendered as unknown rather than as another code's name. Command class codes carry the values of the public specification.",
 ["inputs"],"all 256 codes of each family",
 "Tests sample a few codes.",
 ["commands/constants.go","serialapi/types.go"],
 [("constants and name switches","commands/constants.go, serialapi/types.go")],observe=["rendered names"])

p("C27","Recording serial traffic never alters it and logs it faithfully in order",
 "Through the recording port every read and write reaches the real port with the caller's own buffer and returns exactly what the real port returned, and each one is logged with its direction and exactly the bytes transferred, copied before the call returns and in the order of the calls, also across re-opening the port.",
 ["inputs","schedules"],"all read/write sequences, buffer reuse by the caller and re-opens",
 "The recorder test logs one row through an internal method.",
 ["serialrecorder/serialrecorder.go"],
 [("recording wrapper","serialrecorder/serialrecorder.go Read, Write, writeToLog, logWriter, Open")],observe=["recorded rows","port calls"])

p("C28","The recording converter prints every recorded byte",
 "Converting a recording merges consecutive rows of one direction but never drops or duplicates a byte of a direction: the concatenated output for each direction equals the concatenated recorded data, including the last rows.",
 ["inputs"],"all recordings",
 "The converter has no test.",
 ["cmd/serialrecordingtohex/serialrecordingtohex.go"],
 [("row combiner and final flush","cmd/serialrecordingtohex/serialrecordingtohex.go")],observe=["printed rows"])

p("C29","Connecting reports failure, and a lost port is closed and re-opened with a pause",
 "Connecting without a way to open the port, or when the first open fails, returns an error and no controller, and nothing goes on trying to open the port; a successful connect returns a controller that has started discovery and saving. When reading the port fails the port is closed and marked disconnected, and it is re-opened again and again with a pause between attempts; a failed open never leaves the connection marked as connected.",
 ["fault_sequences","schedules","histories"],"all sequences of open failures, read failures and reconnects, however the connecting goroutines interleave",
 "Tests cover one successful connect and the nil opener.",
 ["gozwave.go","connection.go"],
 [("connect loop","gozwave.go ConnectWithCustomPortOpener; connection.go Connect, Reader")],observe=["returned values","port opens and closes"])

p("C30","Durations decode to the specified seconds and minutes",
 "For each of the 256 duration codes the decoded duration is the number of seconds for codes up to 0x7F, the number of minutes counted from 0x80 as one for codes 0x80 to 0xFD, and an error for 0xFE and 0xFF.",
 ["inputs"],"all 256 codes",
 "Tests sample a few codes.",
 ["commands/duration.go"],
 [("duration decoding","commands/duration.go Duration")],observe=["decoded duration"])

p("C31","A request the stick cancels is sent again, and nothing else is",
 "When the stick answers the last request with a single byte, the writer is told that byte; when it is CAN, that same request is handed to the writer again, exactly once and after a pause that does not hold up the reader; no other request and no other answer ever causes a request to be repeated. The writer writes every request it takes from the queue exactly once, after naming it as the last command, and every call that sends a request queues it at most once.",
 ["inputs","schedules","histories"],"all byte streams from the stick, all sets of outstanding requests, all interleavings of reader, writer and callers",
 "Tests never cancel a request while others are outstanding.",
 ["connection.go"],
 [("handling of single bytes","connection.go Reader"),("writer","connection.go Writer")],observe=["written requests"])

p("C32","Looking up a node, an endpoint or a class returns exactly the one asked for",
 "Looking up a node in the list returns the node stored under exactly that id, or nothing; asking for all nodes returns a map of its own with every node under its own id and nothing else. A node has exactly as many endpoints as its endpoint report says, numbered from one, each pointing back to the node; looking up an endpoint returns the one with that id, or nothing if there is none. A node is of a device class exactly if both its generic and its specific class are the ones asked about, its id is the one it was created with, and the next event comes from the channel events are sent to.",
 ["inputs","configurations"],"all lists, nodes, endpoint reports, ids and classes",
 "No test looks up an endpoint, and the one list test has a single node.",
 ["nodes/list.go","nodes/endpoints.go","nodes/request_endpoints.go","nodes/node.go","controller.go"],
 [("lookups","nodes/list.go Get, All; nodes/endpoints.go Endpoint; nodes/node.go IsDeviceClass, GetID"),("endpoint creation","nodes/request_endpoints.go RequestEndpoints")],observe=["returned nodes, endpoints and answers"])

p("C40","Requests and saves happen with the promised timing",
 "Requests are spaced by at least fifty milliseconds, answers are awaited for the requested time, and an update reaches the configuration file about ten seconds after the last change.",
 ["schedules"],"all schedules",
 "Real-time behaviour depends on the scheduler and clock.",
 ["connection.go","controller.go"],[("timers","connection.go Writer, timeoutWorker; controller.go saveDebouncer")])
p("C41","Reports are applied in the order in which they were received",
 "The state of a node after any sequence of reports is the state resulting from applying them one after the other in the order of arrival.",
 ["schedules","histories"],"all report sequences and schedules",
 "Ordering depends on goroutine scheduling.",
 ["connection.go","nodes/node.go"],[("report callback","connection.go Reader; nodes/node.go ProcessEvent")])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
