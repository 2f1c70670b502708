#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program because one-line JSON is no fun to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=hook)))


prop("C01", "Messages survive the wire byte for byte",
     "Every message (any command, any payload of up to 255 bytes) is put on the wire as the protocol prescribes: start sequence 07 F0, zero byte, command, payload length, payload with every 07 doubled, checksum (sum of command, length and payload plus 173, modulo 256), end sequence 07 0F; a payload that is too long is refused. "
     "Encoding and then decoding a message gives back the same command and payload, and a request/answer exchange over a connection delivers exactly the payload the unit sent, whatever bytes it consists of, including bytes that look like control sequences and checksums of any value.",
     ["inputs"], "all commands x all payloads of 0..255 bytes; in particular every arrangement of the special bytes 07, F0, 0F, F3",
     "The tests encode and decode two or three fixed packets; the escaping rule has its difficult cases in runs of 07 next to control bytes, at the end of the payload and in the checksum, none of which a fixed example reaches.",
     ["libcomfo/proto.go", "libcomfo/conn.go", "libcomfo/message.go"],
     [("MarshalPacket / UnmarshalPacket (checksum, doubling of 07)", "libcomfo/proto.go"), ("framing of packets on the connection", "libcomfo/conn.go")],
     observe=["bytes written to the connection", "result of MarshalPacket/UnmarshalPacket", "value returned by QueryPacket and the getters"])

prop("C02", "How the bytes arrive does not matter",
     "A complete and correct answer of the unit is read the same way however the serial line cuts it into pieces: byte by byte, split anywhere including in the middle of a control sequence, with pauses shorter than the read timeout, or all at once. "
     "Every reader returns the reading encoded in that answer and every setter reports success, each request and each acknowledgement being written once.",
     ["inputs", "schedules"], "all splittings of an answer into pieces, all pauses within the timeout, all interleavings of the receiving goroutine with the caller",
     "The tests hand over whole answers through an in-memory pipe in one write; arrival patterns are a choice of the transport that they do not vary.",
     ["libcomfo/conn.go", "libcomfo/proto.go"],
     [("scanner split function and read loop", "libcomfo/conn.go"), ("control sequence recognition", "libcomfo/proto.go")],
     observe=["result of every getter and setter", "frames and acknowledgements the unit receives"])

prop("C03", "A damaged answer is never taken for a reading",
     "When an answer of the unit is damaged on the line (one byte changed, one byte inserted or lost, or the answer cut short), the reader returns an error or the reading the undamaged answer stood for; it never returns a different reading. "
     "The only exception is damage which yields another answer that is itself completely valid (correct framing, command, length and checksum).",
     ["inputs", "fault_sequences"], "all answers x all single-byte substitutions, insertions, deletions and truncations, followed by silence or by the end of the stream",
     "The tests contain one packet with a bad checksum and one of bad length; that every position is protected is a statement about all of them.",
     ["libcomfo/proto.go", "libcomfo/conn.go", "libcomfo/api.go"],
     [("checksum, length and control sequence checks", "libcomfo/proto.go"), ("answer validation", "libcomfo/conn.go")],
     observe=["result of every getter"])

prop("C04", "Requests follow the acknowledge protocol",
     "Every operation writes its request as one well-formed frame, waits for the unit's acknowledgement and, where it expects a value, for one answer frame of the matching type (request command plus one), acknowledges that frame exactly once after it has been received whole and found correct, and only then returns the value. "
     "Where the unit's behaviour deviates (no acknowledgement, wrong type, a frame where an acknowledgement is due or the reverse, noise, end of the stream), the operation returns an error, acknowledges nothing it did not accept, and never crashes.",
     ["fault_sequences", "inputs", "schedules"], "all request commands and answer commands, every deviating answer of a catalogue covering each step of the exchange, all interleavings within the bound",
     "The tests play fixed good exchanges and a few bad ones; the order and number of acknowledgements relative to the answer is asserted nowhere.",
     ["libcomfo/conn.go", "libcomfo/proto.go"],
     [("QueryPacket and the handshake behind it", "libcomfo/conn.go")],
     observe=["sequence of frames and acknowledgements on the wire", "result of the operation"])

prop("C05", "Success of a setting means the unit acknowledged it",
     "A setter (fan speed, fan profile, all fan profiles, comfort temperature) returns success only if its request has been written completely to the connection and the unit has answered that request with an acknowledgement. "
     "If writing fails, or the unit answers with anything else, stays silent, or the stream ends, the setter returns an error; a profile change whose preceding read fails writes nothing.",
     ["fault_sequences", "inputs", "schedules"], "all answers up to a length over the control bytes, followed by silence, end of stream or an error; all partial writes; all interleavings within the bound",
     "The tests acknowledge every setting; the silent and half-answered cases depend on how a stream of bytes is cut into tokens, over all streams.",
     ["libcomfo/conn.go", "libcomfo/api.go", "libcomfo/proto.go"],
     [("waiting for the acknowledgement", "libcomfo/conn.go"), ("Set* operations", "libcomfo/api.go")],
     observe=["error returned by the setter", "bytes on the wire"])

prop("C06", "Every call on a unit returns in bounded time",
     "Whatever the unit does (silence, endless noise, dribbling bytes, half frames, a closed stream), each library call on a connection returns within a bounded time, a few seconds, with a value or an error. "
     "It never waits forever, never panics, and does not keep goroutines running that grow in number with the calls made.",
     ["fault_sequences", "schedules"], "all sequences of pieces of noise, control sequences, floods and pauses up to a depth, all interleavings within the bound",
     "No test involves a unit that misbehaves over time; timeouts are never exercised with data still arriving.",
     ["libcomfo/conn.go"],
     [("read timeout", "libcomfo/conn.go")],
     observe=["virtual time at which the call returns", "number of goroutines"])

prop("C07", "The connection recovers from a failed exchange",
     "After an exchange has failed while the connection stayed up (no answer, late, incomplete or damaged answer), and the line has become quiet, the next exchanges with a unit that answers correctly succeed and return its current readings. "
     "Nothing left over from a failed exchange is ever taken as the answer to a later request.",
     ["histories", "fault_sequences", "schedules"], "all sequences of failed exchanges (operation x deviation) up to a depth followed by all sequences of healthy ones, all interleavings within the bound",
     "Every test uses a fresh connection for one exchange; nothing is ever tested after a failure.",
     ["libcomfo/conn.go"],
     [("what is kept between exchanges on a connection", "libcomfo/conn.go")],
     observe=["results of the operations following a failure"])

prop("C08", "Concurrent callers get their own answers",
     "Any number of goroutines may use the same connection, or different ones, at the same time: exchanges do not overlap on a wire (each request is followed by its own acknowledgement and answer before the next request starts), and each caller receives the answer to its own request. "
     "A failed exchange of one caller does not make another caller's call fail, hang, or return a foreign reading.",
     ["schedules", "fault_sequences"], "all schedules of two and three callers up to a preemption bound, with and without faults of the unit",
     "The tests have no concurrency at all.",
     ["libcomfo/conn.go"],
     [("serialisation of exchanges on a connection", "libcomfo/conn.go")],
     observe=["order of frames on the wire", "results of concurrent calls"])

prop("C09", "Settings reach the unit as given",
     "Setting the comfort temperature, the fan speed, one fan profile or all fan profiles sends exactly one request carrying exactly the value given in the unit's encoding, whatever the value; changing one fan profile leaves all other stored profile values of the unit as they are. "
     "Values the unit cannot represent (an unknown fan mode, a temperature or speed out of range) are refused with an error and nothing is sent.",
     ["inputs"], "all values of every parameter x stored profiles with special bytes",
     "The tests set one or two values of each kind.",
     ["libcomfo/api.go", "libcomfo/response_types.go"],
     [("Set* operations", "libcomfo/api.go"), ("encoding of the profiles", "libcomfo/response_types.go")],
     observe=["request frames the unit receives", "error of the setter"])

prop("C10", "Readings mean what the unit reported",
     "Each reader (boot info, temperatures, fans, fan profiles, bypass, errors) returns the values in the unit's answer according to its documented layout and units (temperature = byte/2 - 20, fan speed = 1875000/raw, hours and versions as given, device name without padding), for every possible answer. "
     "An answer that cannot be represented (wrong size, values that do not exist or overflow) gives an error, never a wrong value or a crash, and a value once returned never changes afterwards.",
     ["inputs"], "all byte values at all positions, all pairs of adjacent bytes, all answer sizes of all eight messages",
     "The tests decode one or two payloads of each type.",
     ["libcomfo/response_types.go", "libcomfo/message.go", "libcomfo/api.go"],
     [("UnmarshalBinary of the response types", "libcomfo/response_types.go")],
     observe=["values returned by the getters"])

prop("C11", "Concurrent profile changes lose no update",
     "Fan profile changes made at the same time through the same connection do not undo one another: after all have returned, the profiles stored in the unit are the result of applying those that reported success (and possibly some that failed) one after the other in some order. "
     "No change overwrites a stored value it was not asked to change.",
     ["schedules", "fault_sequences"], "all schedules of two and three profile changes and readers up to a preemption bound, with lost requests and faulty answers",
     "A profile change is a read followed by a write; the tests make one change at a time, so the window between them never matters.",
     ["libcomfo/api.go", "libcomfo/conn.go"],
     [("read-modify-write of the profiles", "libcomfo/api.go")],
     observe=["profiles stored in the unit", "results of the setters"])

prop("C12", "The server reports the unit's last known readings",
     "Each Get call of the server (boot info, temperatures, fans, fan profiles, bypass, errors) answers with one complete reading: that of the most recent refresh of that kind that succeeded. "
     "A failed refresh leaves the previous reading in place and affects no other kind, readings of two refreshes are never mixed in one answer, and before the first success the call does not crash.",
     ["histories", "fault_sequences", "schedules"], "all sequences of refreshes (timer ticks and flushes) with the unit's state changing between them and any refresh failing in any way, up to a depth; all interleavings of readers with refreshes within the bound",
     "The server has no tests.",
     ["comfoserver/caches.go", "comfoserver/server.go", "comfoserver/protobuf.go", "comfoserver/timers.go"],
     [("caches and their locks", "comfoserver/caches.go"), ("conversion to the API's messages", "comfoserver/protobuf.go")],
     observe=["answers of the Get calls compared with the answers the unit gave"])

prop("C13", "Changing the fan speed is checked, done and confirmed",
     "A fan speed request names an absolute level from 1 to 4, or a step up (Rel) or down (neither set) from the level in use that stays within 1 to 4; anything else, including both at once and values that only look right after truncation, is refused as an invalid argument and changes nothing on the unit. "
     "The level in use is what the unit has when the call is made, also when it was just chosen on the unit's own panel; only if the unit cannot be read, it is the last one known. A request for another level sends exactly one request for that level, reports success (Modified, with the original and target level) only if the unit acknowledged it and its fans then reach that level's duty within several seconds, and an error otherwise; a request for the level in use succeeds with Modified=false and asks for no change. "
     "When the call returns, successful or failed, the server's reading of the level in use agrees with the unit, provided the unit could be read.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all requests (full 32-bit values) x all current levels x all ramp times, levels and profiles changed on the unit's panel, lost requests and faulty answers at every exchange, all interleavings with the background refresh within the bound",
     "The server has no tests.",
     ["comfoserver/server.go", "comfoserver/helpers.go", "comfoserver/caches.go"],
     [("SetFanSpeed", "comfoserver/server.go"), ("speed arithmetic", "comfoserver/helpers.go"), ("waiting for the fans", "comfoserver/server.go")],
     observe=["answer of SetFanSpeed", "requests the unit receives", "following GetFanProfiles"])

prop("C14", "Changing a fan profile is checked, done and confirmed",
     "A fan profile request is accepted only for a mode from 1 to 4 and a target speed from 15 to 100; any other value, including ones that only look right after truncation, is refused as an invalid argument without a request to the unit. "
     "A valid change sets both fans of that mode to the target and touches nothing else, reports success only if the unit acknowledged it, and is skipped with Modified=false only if both fans are stored at the target on the unit already, also when its profiles were just changed on its own panel. "
     "After the call the server's reading of the profiles agrees with the unit, provided the unit could be read.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all requests (full 32-bit values) x stored profiles, lost requests and faulty answers at every exchange, profiles changed on the unit's panel, all interleavings with the background refresh within the bound",
     "The server has no tests.",
     ["comfoserver/server.go", "comfoserver/caches.go", "libcomfo/api.go"],
     [("SetFanProfile", "comfoserver/server.go")],
     observe=["answer of SetFanProfile", "requests the unit receives", "following GetFanProfiles"])

prop("C15", "Changing the comfort temperature is checked and done",
     "A comfort temperature request above what the unit can represent (more than 107 degrees) is refused with an error and never sent to the unit. "
     "A valid change sends exactly one request with that temperature, reports success only if the unit acknowledged it, together with the temperature requested and the one before, and reports Modified=false without asking for a change when the unit has that temperature already, also if it was just set on its own panel; afterwards (whether the change succeeded or failed) the server's reading agrees with the unit, provided the unit could be read.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all requested values x current temperatures, temperatures set on the unit's panel, sequences of calls with lost requests and answers, all interleavings with the background refresh within the bound",
     "The server has no tests.",
     ["comfoserver/server.go", "comfoserver/caches.go"],
     [("SetComfortTemp", "comfoserver/server.go")],
     observe=["answer of SetComfortTemp", "requests the unit receives", "following GetTemps"])

prop("C16", "Concurrent changes behave as if made one by one",
     "When several clients change the fan speed, fan profiles and comfort temperature at the same time, every call's answer (error or not, Modified, original values) and the state the unit ends up in are those of making the calls one after the other in some order. ",
     ["schedules"], "all schedules of pairs and triples of changing calls together with the background refresh, up to a preemption bound",
     "The server has no tests, and the API is used concurrently by design (HTTP).",
     ["comfoserver/server.go", "comfoserver/caches.go"],
     [("locks held by the changing calls", "comfoserver/server.go")],
     observe=["answers of concurrent calls", "final state of the unit"])

prop("C17", "The server never wedges",
     "No combination of calls, timing and faults of the unit leaves the server stuck or dead: every call returns within bounded time, none panics, and afterwards, once the unit answers properly, every kind of call works again and readings are refreshed. ",
     ["schedules", "histories", "fault_sequences"], "all pairs and triples of calls (valid, invalid, reads, flushes) with the background refresh, under all schedules and faults within the bounds, each followed by every call once more",
     "The server has no tests; a lock kept on an error path shows only in the call after it.",
     ["comfoserver/server.go", "comfoserver/caches.go", "comfoserver/timers.go", "libcomfo/conn.go"],
     [("release of the cache locks on every path", "comfoserver/caches.go")],
     observe=["return of every call", "state of all goroutines"])

prop("C18", "Flushing a cache re-reads it before reporting success",
     "A flush request for a known cache type reports success only if, during the call, everything that type covers (all readings for 'all') has been read from the unit again successfully; readings obtained after a successful flush are at least that fresh. "
     "If a read failed, or the type is unknown (nothing is asked of the unit then), the answer says Success=false; flushes at the same time each get their own result.",
     ["histories", "fault_sequences", "schedules"], "all cache types (known and unknown) x every combination of failing reads up to a bound, concurrent flushes and timer ticks under all schedules within the bound",
     "The server has no tests.",
     ["comfoserver/server.go", "comfoserver/timers.go", "comfoserver/caches.go"],
     [("FlushCache", "comfoserver/server.go"), ("the caching worker", "comfoserver/timers.go")],
     observe=["answer of FlushCache", "requests the unit receives during the call", "following Get calls"])

prop("C19", "Readings are kept fresh in the background",
     "While the server runs and the unit answers, readings never grow older than about two refresh periods of their kind: temperatures and fans are read every 5 seconds, profiles and bypass every 5 minutes, boot info and errors every hour, and all of them at start, before the first call is answered. "
     "Calls, flushes and the other kinds' refreshes never stop or starve this.",
     ["histories", "schedules"], "all flush types at all offsets within a period over hours of virtual time, all schedules within the bound",
     "The server has no tests, and hours of real time are beyond any test.",
     ["comfoserver/timers.go", "comfoserver/caches.go"],
     [("the caching worker's tickers", "comfoserver/timers.go")],
     observe=["age of the reading returned by Get calls in virtual time"])

prop("C20", "No data races",
     "Using one connection, several connections or the server from any number of goroutines involves no unsynchronised access to shared memory: two accesses to the same location, one of them a write, are always ordered by synchronisation.",
     ["schedules", "fault_sequences"], "all pairs of library calls and of RPCs together with the background refresh, under all schedules within the bound, with faulty answers",
     "The tests are sequential, so the race detector has nothing to see in them.",
     ["libcomfo/conn.go", "comfoserver/caches.go", "comfoserver/server.go", "comfoserver/timers.go"],
     [("connection lock", "libcomfo/conn.go"), ("cache locks", "comfoserver/caches.go")],
     observe=["race detector reports on the real accesses"])

prop("C21", "The HTTP API carries every call faithfully",
     "Every method of the service can be called over HTTP by POST at its Twirp path, in JSON and in Protobuf, and answers what the server's method returns, field by field under the published names and numbers, for every reading of the unit, including device names that are not valid UTF-8. "
     "Errors keep their kind (invalid arguments stay client errors, failures of the unit become server errors), malformed requests, unknown methods and wrong content types or verbs are refused with a 4xx answer, and no request makes the server crash or stop serving.",
     ["inputs", "histories", "fault_sequences"], "all methods x both encodings x readings at the limits of every field x valid, invalid and malformed requests, with faults of the unit",
     "Nothing of the HTTP surface is tested.",
     ["routes.go", "rpc/comfo/comfo.twirp.go", "rpc/comfo/comfo.pb.go", "rpc/comfo/comfo.proto", "comfoserver/protobuf.go", "comfoserver/server.go"],
     [("router", "routes.go"), ("generated Twirp server", "rpc/comfo/comfo.twirp.go"), ("conversion to messages", "comfoserver/protobuf.go")],
     observe=["HTTP status and body"])

prop("C22", "The Python client says what it was told",
     "Each method of the Python client sends exactly one request, to the method of the server it is named after, with its arguments in the right fields, and returns the server's answer; arguments the server would not accept (temperature, fan speed, fan mode or percentage out of range) are refused before anything is sent. "
     "A step of the fan speed beyond the last level is reported as no change, other failures of the server are raised, and the asynchronous variant of each method does the same without blocking the event loop the client was given, also when calls overlap or fail.",
     ["inputs", "schedules", "fault_sequences"], "all methods x all argument values in and around the valid ranges x answers and errors of the server, and all completion orders of overlapping asynchronous calls",
     "The Python client has no tests.",
     ["python/comfo/client.py", "python/comfo/types.py"],
     [("Comfo and AsyncComfo", "python/comfo/client.py"), ("enumerations", "python/comfo/types.py")],
     observe=["requests sent by the client", "its return values and exceptions"])

prop("C23", "Starting up connects to the configured unit or fails",
     "The program serves its API on the configured address and talks to the unit named by its configuration (mode and target: a network address or a serial device), whether a setting comes from the command line or the environment, the command line winning; from its first answer on it gives what the unit says. "
     "With an unknown mode, an unreachable target or an API address it cannot bind it exits with an error status instead of serving, and answers that take as long as a change of the fan speed takes still reach the client.",
     ["configurations", "histories", "fault_sequences"], "all combinations of flags and environment variables for target, address and mode x reachable, unreachable and slow units",
     "Startup and configuration are not tested.",
     ["comfo.go", "config.go", "routes.go", "logger.go"],
     [("configuration", "config.go"), ("ConnectUnit and main", "comfo.go")],
     observe=["exit status", "connections made", "answers on the API address"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        assert len(p["title"]) <= 80
        f.write(json.dumps(p) + "\n")
