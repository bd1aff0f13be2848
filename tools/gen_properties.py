#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FH="internal/protocol/frame_handler.go"; PC="internal/protocol/packet_codec.go"; MP="internal/protocol/msg_processor.go"
KA="internal/protocol/keepalive.go"; PL="internal/protocol/pipeline.go"; SRV="internal/server/tcp_server.go"
M="internal/protocol/model/"; ST="internal/storage/"; HEX="internal/codec/hex/hex.go"; API="internal/api/api.go"
OV="server accept loop driven through an in-memory listener (overlay file, no change to /repo)"

prop("C01","Framing, escaping and check byte are transparent to message content",
 "Whatever bytes a message consists of, the frame put on the wire begins and ends with 0x7E, contains no other 0x7E, and consists of the message followed by its XOR check byte with 0x7E sent as 7D 02 and 0x7D sent as 7D 01. The whole frame is written even when the connection accepts it only piece by piece. Receiving that frame, however the stream is cut into reads, yields exactly the original header and body bytes.",
 ["inputs","schedules"],"all message contents (bodies 0..1023 bytes, biased to 0x7D/0x7E/0x01/0x02 anywhere including the check byte), all ways of cutting the stream into reads and of splitting writes",
 "The tests decode two fixed frames and receive eleven fixed streams from a buffer; no test sends a frame, and none has an escaped byte next to the end, an escaped check byte, or split reads.",
 [FH,PC],[("escape/unescape",PC),("genVerifier/verify",PC),("Recv/Send",FH)],observe=["bytes written to the connection","decoded packet header and body"])
prop("C02","A frame with a wrong check byte has no effect",
 "A received frame whose XOR check byte does not match its contents gets no reply and changes no registration, authentication, status, keepalive or location data. Its connection stays usable: the next intact frame on it is processed as if the corrupted frame had never been sent.",
 ["inputs","histories","fault_sequences"],"every message type and state, every corruption of one or more content or check bytes that breaks the XOR sum, at any point of a history",
 "One fixed frame with a wrong check byte is decoded in isolation; no test looks at replies or state.",
 [PC,PL,SRV],[("verify",PC),("pipeline stops on error",PL)],observe=["frames sent by the server","device, location and session stores"],hook=OV)
prop("C03","The receiver finds every frame in any stream and recovers from noise",
 "From any byte stream, read in pieces of any size, every well-delimited frame (of up to 64 KB, many times the longest message) is delivered exactly once, in order and unaltered, and bytes between frames are ignored. After stray bytes or a lost or extra delimiter the receiver recovers by itself: at most the one frame next to the damage is lost, every later frame is delivered, and nothing that was not a contiguous delimited part of the stream is ever delivered.",
 ["inputs","fault_sequences"],"all interleavings of frames, delimiter-free noise, noise with delimiters, dropped and doubled delimiters, and all read boundaries",
 "Eleven fixed streams are received; none loses a delimiter between frames and all arrive in one read.",
 [FH],[("Recv",FH)],observe=["frames returned by the receiver","replies of the server"])
prop("C04","Message headers keep every field in both header layouts",
 "For every header in the 2013 and 2019 layouts, decoding gives exactly the transmitted message ID, body length, encryption, fragmentation, version and reserved bits, protocol version, phone digits (leading zeros included), serial number and fragment total/index, and the body starts right after the header. Encoding those values gives back the same bytes, and the length field of any encoded message equals the size of its body; a message whose body is longer than the length field can say (1023 bytes) is refused and not sent.",
 ["inputs"],"all 65536 attribute words, both layouts, all phone digit strings, serials, fragment items and body sizes 0..1023",
 "One 2019 header is encoded and decoded; attribute and fragment tests have empty case tables, no 2013 header, no fragment header.",
 [M+"header.go",M+"msg.go"],[("header/attribute/fragment encode and decode",M+"header.go"),("body length written at encode",M+"msg.go")],observe=["decoded header fields","encoded bytes"])
prop("C05","Every supported message survives encode and decode in each version",
 "For each supported message type and protocol version, encoding places every field at its documented position, width and padding, and decoding such bytes yields the same field values, including registration in its 2011, 2013 and 2019 widths (each recognised as that version, its province and city named as in GB/T 2260) and authentication with and without IMEI and software version. A registration or authentication value longer than its field is cut to the field. A well-formed message of a supported type, including one with optional trailing data or an empty list, is never rejected.",
 ["inputs"],"all field values within the protocol's widths for 0001 0002 0003 0004 0100 0102 0104 0200 1205 8001 8004 8100 8103 8104 9205, in each version",
 "Three messages are encoded once each in the 2019 layout; no body is ever decoded by a test.",
 [M+"msg_0001.go",M+"msg_0100.go",M+"msg_0102.go",M+"msg_0200.go",M+"msg_1205.go",M+"msg_8001.go",M+"msg_8100.go",M+"device_media.go"],
 [("per-message Encode/Decode",M)],observe=["encoded bytes vs an independent encoder","decoded fields"])
prop("C06","Terminal parameter lists survive being sent and received",
 "Any list of supported terminal parameters, including lists given as JSON numbers and strings, is encoded with the right ID, length and value bytes per item and a count equal to the number of items that follow, and decoding returns the same IDs, order and values. A parameter with an unsupported ID, with a value longer than its length byte can say, or with a JSON value its type cannot hold (another kind of value, a fraction, a number out of range), is skipped without failing the message or disturbing the parameters around it.",
 ["inputs"],"all supported IDs with all values of their type (byte, word, dword, GBK text, raw bytes incl. every nibble value), list lengths 0..255 within one body, unknown IDs at any position and length",
 "The only test decodes an empty list.",
 [M+"device_params.go",M+"msg_0104.go",M+"msg_8103.go",MP],[("parameter type table",M+"device_params.go"),("list encode/decode",M+"device_params.go")],observe=["encoded bytes vs an independent encoder","decoded parameter list"])
prop("C07","Fragmented messages are reassembled exactly and acknowledged",
 "A message sent in fragments has the same effect and final reply as the same message sent whole, once and only once all its fragments have arrived, whatever their order, repetition before completion, interleaving with other messages or other terminals' fragments, and whichever of the terminal's connections they come on. Every fragment before completion is acknowledged with one general reply naming its serial number and message ID, a message broken off after its first fragments does not affect a later one sent in order, and a fragment numbered 0 or beyond its total counts for none of the message's.",
 ["inputs","histories"],"all ways of splitting a message into fragments, all arrival orders with duplicates, interleaved terminals and message types, abandoned prefixes followed by a complete message",
 "No test sends a fragmented packet.",
 [PC,ST+"segment_cache.go",M+"segment.go",MP],[("segment cache",ST+"segment_cache.go"),("reassembly in packet decode",PC),("fragment acknowledgement",MP)],
 state=[("segment cache","fragments received so far per phone and message ID",ST+"segment_cache.go")],observe=["replies","decoded body","device and location stores"],hook=OV)
prop("C08","Each request gets exactly one matching reply, in order",
 "Every valid request from a registered terminal (registration, authentication, heartbeat, logout, location report, time query) is answered exactly once, in request order, on the connection it came from, by a well-formed frame of the documented reply type carrying the terminal's phone number and header layout and echoing the request's serial number and, where the reply has it, message ID. Terminal messages that need no reply, messages only a platform sends, and unsupported message IDs get none and do not disturb the connection.",
 ["inputs","histories","schedules"],"all request sequences over several connections and terminals, in both header layouts, with pipelined and arbitrarily split input",
 "No test runs the server or the message processor.",
 [MP,PL,SRV,M+"msg_8001.go",M+"msg_8004.go",M+"msg_8100.go"],[("action table",MP),("GenOutgoing",M),("pipeline",PL)],observe=["frames sent on every connection"],hook=OV)
prop("C09","A phone number and a plate are registered to at most one terminal",
 "A registration is accepted exactly when neither its phone number nor its plate is currently registered; otherwise it is refused with code 1 (plate taken) or 3 (terminal taken), the existing registration stays as it was, and the refusal does not reveal a valid authentication code. An accepted registration records the terminal's id, plate, phone, protocol version (2011, 2013 or 2019) and connection.",
 ["inputs","histories"],"all histories of registrations, authentications, logouts and failed authentications with colliding phones and plates on several connections",
 "No test registers a terminal.",
 [MP,ST+"device_cache.go",M+"device.go",M+"msg_0100.go"],[("duplicate check then insert",MP),("device cache",ST+"device_cache.go")],
 state=[("device cache","registered terminals by phone and plate",ST+"device_cache.go")],observe=["registration replies","device store"],hook=OV)
prop("C10","Simultaneous registrations never grant a phone or plate twice",
 "When any number of terminals register at the same moment with overlapping phone numbers or plates, the outcome equals some one-after-another order: no two accepted registrations share a phone or a plate, every refusal conflicts with an accepted one, and the directory by phone, by plate and as a list agree on exactly the accepted ones.",
 ["schedules"],"all schedules of concurrent registrations on separate connections",
 "No test is concurrent.",
 [MP,ST+"device_cache.go"],[("atomic check-and-insert",ST+"device_cache.go")],observe=["registration replies","device store"],hook=OV)
prop("C11","Authentication succeeds only with the code issued to that terminal",
 "An authentication succeeds exactly when its code equals the one issued by the accepted registration of that phone number; success marks the terminal online and records its IMEI and software version (2019). Any other code is answered with failure and revokes that registration, and no other terminal's state changes. Nothing else a terminal sends, in particular no message that only a platform sends, makes a terminal online.",
 ["inputs","histories"],"all codes: the issued one, other terminals' codes, prefixes, extensions, case and padding variants, empty and random ones; in both layouts; repeated and after logout or re-registration",
 "Only the hash function is tested on one string.",
 [MP,M+"msg_0102.go","internal/codec/hash/hash.go"],[("code derivation and comparison",MP)],observe=["authentication replies","device store"],hook=OV)
prop("C12","Terminals that are not registered are not served",
 "A heartbeat, logout, authentication, location report or message fragment for a phone number that is not currently registered gets no reply, stores nothing, and its connection is closed by the server. Registered terminals on other connections are unaffected, and the refused terminal can connect again and register.",
 ["inputs","histories"],"all histories in which never-registered, logged-out, revoked and evicted phones send requests",
 "No test runs the server.",
 [MP,SRV],[("device lookup in each handler",MP),("close on unknown device",SRV)],observe=["replies","connection close","device and location stores"],hook=OV)
prop("C13","Logout frees everything the terminal held",
 "After an accepted logout the terminal's phone and plate can be registered again at once, its stored location data, unfinished fragments and pending keepalive check are gone, and other terminals are untouched, also when the logout coincides with messages of the same terminal on another connection; the logout is answered and the connection is left open for the terminal to close. A later registration of the same phone starts with no location, not online.",
 ["histories","schedules"],"all histories of register, authenticate, report, logout, re-register by several terminals, on the same or new connections, with time passing",
 "No test logs a terminal out.",
 [MP,KA,ST+"device_cache.go",ST+"geo_cache.go"],[("logout handler",MP),("timer cancel",KA)],observe=["replies","device and location stores","scheduled checks"],hook=OV)
prop("C14","A terminal that keeps talking is never dropped",
 "As long as a registered terminal sends a heartbeat, location report or successful authentication at least once per keepalive period (60 s), it stays registered, its connection (one it does not share with a terminal that falls silent) is not closed by the server, and once authenticated it is not shown offline, however long it runs and whatever other terminals do.",
 ["histories","schedules"],"all timings of messages with gaps up to the keepalive period, arbitrarily long runs, other terminals coming, going and expiring",
 "No test runs the keepalive timer; real waiting would take minutes per case.",
 [KA,MP,M+"device.go"],[("keepalive job",KA),("last communication time",MP)],observe=["device store","connection state"],hook=OV)
prop("C15","A silent terminal goes offline and is then removed and disconnected",
 "An authenticated terminal that stays silent is shown offline no later than two keepalive periods after its last message and not before one, and is removed - registration, location data, pending check - and its connection closed no later than three periods and not before two. A registered terminal that never authenticated is removed and disconnected between one and two periods after its last message.",
 ["histories","schedules"],"all phases of registration and last message relative to the check times, any number of terminals, silence starting at any point, terminals reconnecting on new connections",
 "No test runs the keepalive timer.",
 [KA,M+"device.go",ST+"device_cache.go",ST+"geo_cache.go"],[("keepalive job",KA),("offline/clear conditions",M+"device.go")],observe=["device and location stores","connection state"],hook=OV)
prop("C16","The stored location is the last report, decoded as documented",
 "After any number of location reports from any terminals, a terminal's latest stored location is its own last accepted report with latitude and longitude in degrees (1e-6), altitude, speed (0.1 km/h), direction, time and every status bit decoded as documented, and its bounded history holds exactly the most recent 100. Status-bit encoding and decoding are inverse, and a report with the ignition off marks the terminal sleeping while others leave its status alone.",
 ["inputs","histories"],"all report field values and all status words, any number of reports (well beyond the history size) from interleaved terminals",
 "One coordinate pair is decoded; the ring buffer's latest/oldest tests are commented out; no report is processed.",
 [MP,M+"device.go",M+"msg_0200.go",ST+"geo_cache.go","pkg/container/ring_buffer.go"],[("location handler",MP),("status bit masks",M+"device.go"),("ring buffer",  "pkg/container/ring_buffer.go")],
 state=[("location history","last 100 reports per phone",ST+"geo_cache.go")],observe=["location store"],hook=OV)
prop("C17","Field codecs for BCD, time, GBK text and integers are inverse",
 "Writing any value of a protocol field type (byte, word, double word, byte string, decimal BCD, 12-digit time, GBK text) and reading it back returns the same value, appends to what was already written without altering it, and moves the read position by exactly the field's size. Text that cannot be expressed in GBK never destroys the bytes already written.",
 ["inputs"],"all integers, digit strings of 8 or more even digits, byte strings, GBK-encodable texts, two-digit-year times, at any offset in a buffer; unencodable texts",
 "Six of the read/write tests have empty case tables; the others use one value at offset 0.",
 [HEX,"internal/codec/gbk/gbk.go"],[("Read*/Write*",HEX),("GBK conversion","internal/codec/gbk/gbk.go")],observe=["bytes and positions"])
prop("C18","No input can crash the server or harm other terminals",
 "Whatever bytes a connection sends - random, truncated, inconsistent lengths, well-checksummed nonsense, unknown IDs, at any moment and in any quantity, reading its replies or not - the server process keeps running, keeps accepting connections, and keeps serving every other terminal correctly. The offending connection is either served, ignored or closed, and once it is closed nothing of it remains.",
 ["inputs","histories","fault_sequences"],"all byte streams on any number of connections, interleaved with correct terminals, abrupt disconnects at any byte",
 "No test feeds malformed bodies or runs the server.",
 [SRV,PL,PC,MP,"pkg/routines/safe.go",KA],[("per-connection recovery","pkg/routines/safe.go"),("error classification",SRV)],observe=["process liveness","replies to other terminals"],hook=OV)
prop("C19","Every connection has a session that ends with it",
 "Each accepted connection has its own session that can be reached by its remote address until the connection ends; when it ends for any reason (orderly close, reset, refused terminal, malformed input) the server closes its side and forgets the session, and nobody else's. Sending to a session that is gone does nothing, a passing failure to accept does not end the accept loop, and stopping the server ends it without touching live connections.",
 ["histories","fault_sequences"],"all histories of connects, traffic, closes, resets and sends to live and gone sessions",
 "The server test has an empty case table.",
 [SRV,ST+"session_cache.go",M+"session.go"],[("accept/remove",SRV),("session cache",ST+"session_cache.go")],observe=["session lookup","connection close"],hook=OV)
prop("C20","Platform messages reach the right terminal, whole and numbered",
 "A message the platform sends to a registered terminal arrives as one well-formed frame in that terminal's header layout with its phone number, on the connection on which the terminal last registered or authenticated. The serial numbers of a session are consecutive modulo 65536 without repeats within a cycle, even when taken concurrently, and frames sent concurrently to one connection, replies included, are never mixed.",
 ["schedules","histories"],"all terminals and versions, reconnect histories, any number of concurrent senders and replies, arbitrarily many serial numbers (across the wrap)",
 "No test sends a message or takes a serial number.",
 [SRV,M+"header.go",M+"session.go",MP],[("platform header generation",M+"header.go"),("serial counter",M+"session.go"),("single write per frame",FH)],observe=["frames on each connection","serial numbers"],hook=OV)
prop("C21","The terminal directory stays coherent and safe under concurrency",
 "At every moment the lookups by phone, by plate and the listing describe the same set of terminals, after any sequence of registrations, updates of registered terminals and deletions by phone or plate. The directory and the session, location, parameter and fragment stores can be used from any number of goroutines without crashing, racing or losing a completed update, and terminals served at the same moment on their own connections share no unsynchronised state.",
 ["histories","schedules"],"all operation sequences against a map model; concurrent mixes of reads, listings, inserts and deletes",
 "The storage package has no tests.",
 [ST+"device_cache.go",ST+"session_cache.go",ST+"geo_cache.go",ST+"param_cache.go",ST+"segment_cache.go"],[("mutex-guarded maps",ST)],observe=["store contents","race detector, process liveness"])
prop("C22","The HTTP queries report exactly the live terminal data",
 "The device listing returns exactly the currently registered terminals, each once, with their ids, plates, phones, connection, status and version and, once authenticated, authentication code, IMEI and software version. The location query returns the data of a terminal that has reported with its latest location, and a query for an unknown phone is answered 400 without side effects.",
 ["histories"],"all histories of terminal traffic against the running server with queries at any point",
 "The API package has no tests.",
 [API,ST+"device_cache.go",ST+"geo_cache.go"],[("handlers",API)],observe=["HTTP responses of the real server process"])
prop("C23","The HTTP parameter commands send what was asked, or nothing",
 "A parameter query or a parameter update for a connected terminal makes the server send exactly one corresponding command frame (0x8104, or 0x8103 with exactly the given parameters and their count) to that terminal and to no other. A request with an unreadable body, for an unknown phone, or for a terminal whose connection is gone (even if another terminal has connected from the same address since) is answered 400 and sends nothing.",
 ["inputs","histories"],"all supported parameters as JSON, malformed bodies, unknown and disconnected terminals, several terminals",
 "The API package has no tests.",
 [API,SRV,M+"device_params.go"],[("handlers",API),("Send",SRV)],observe=["frames at the terminals","HTTP responses of the real server process"])
prop("C24","The bundled terminal client speaks its side of the protocol",
 "As a terminal, the client answers a successful registration reply with an authentication carrying the received code and its own IMEI and software version, becomes online when a success reply arrives, acknowledges a parameter update, answers a parameter query with its current parameters (values it holds replaced by an update, others unchanged), and answers a media query with the queried channel and time range, each answer echoing the command's serial number. It ignores corrupted frames and unsupported commands, and stops when the platform closes or resets the connection. Started with a configuration, it registers, authenticates and reports against the server as configured.",
 ["inputs","histories"],"all command sequences from the platform side, in both layouts, with generated codes, parameters and time ranges",
 "The client package has no tests.",
 ["internal/client/tcp_client.go",MP,M+"msg_0102.go",M+"msg_0104.go",M+"msg_1205.go",ST+"param_cache.go"],[("client read loop","internal/client/tcp_client.go"),("terminal-side handlers",MP)],observe=["frames sent by the client","device and parameter stores"])
prop("C25","Configuration values take effect as written",
 "Every setting in a configuration file is loaded with exactly the value given, each log level name, destination and rolling limit acts as documented, and the embedded default configurations equal the shipped default files. The server listens on exactly the configured TCP and HTTP ports, and exits with an error if it cannot have them. A configuration file that is missing, is not valid YAML or gives a section, number or switch a value that is none is refused at startup.",
 ["configurations"],"all values of all settings of the server and client sections",
 "One fixed file is loaded once; the log configuration mapping is untested.",
 ["internal/config/config.go","internal/config/asset.go","main.go"],[("viper load and unmarshal","internal/config/config.go"),("log level mapping","internal/config/config.go")],observe=["loaded configuration","listening ports of the real process"])
prop("C26","An incomplete message is never acted on",
 "A message with a correct check byte that ends before its header, or before the fixed fields of its type (location report, registration, 2019 authentication) do, whole or reassembled from fragments, gets no reply of its own and changes no registration, authentication, status, keepalive or location data. Its connection is ignored or closed, and everybody else is served as if it had never been sent.",
 ["inputs","histories"],"every cut of every such message, from registered and unknown terminals, on any connection, at any point of a history, whole and in fragments",
 "No test decodes a message that is too short.",
 [PC,HEX,M+"msg_0200.go",M+"msg_0100.go",M+"msg_0102.go",ST+"segment_cache.go",MP],[("field reads bounded by the message",HEX),("check byte cut off",PC),("processing stops on a decode error",MP)],observe=["frames sent by the server","device, location and session stores"],hook=OV)
prop("C27","The bounded history container keeps the most recent values",
 "A ring container of any capacity holds, after any sequence of writes, exactly the most recent values up to its capacity: the latest is the last value written, the oldest of a full ring is the first of those held, and reads return the held values slot by slot, round and round. Looking changes nothing, rings are independent of each other, and a ring can be used from any number of goroutines without racing or losing a completed write.",
 ["histories","schedules"],"all capacities, all operation sequences, all interleavings of several writers and readers",
 "The tests write two values into a ring of ten and never read.",
 ["pkg/container/ring_buffer.go",ST+"geo_cache.go"],[("slots and positions","pkg/container/ring_buffer.go")],observe=["values returned by the container"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
