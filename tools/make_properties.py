"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json

RD, SW, MS, HP = "src/pynmeagps/nmeareader.py", "src/pynmeagps/socketwrapper.py", "src/pynmeagps/nmeamessage.py", "src/pynmeagps/nmeahelpers.py"
CORE = "src/pynmeagps/nmeatypes_core.py"
DEFS = ["src/pynmeagps/nmeatypes_get.py", "src/pynmeagps/nmeatypes_get_prop.py", "src/pynmeagps/nmeatypes_set_prop.py",
        "src/pynmeagps/nmeatypes_poll.py", "src/pynmeagps/nmeatypes_poll_prop.py"]
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": None}})


p("C01", "Every intact sentence is delivered once, in order and correctly decoded",
  "Reading a file, serial port, socket or any other stream offering read(n) delivers every intact NMEA sentence that starts the stream, follows a line end or follows only '$'-free bytes since one, exactly once, in stream order and with its bytes unchanged, whatever binary data, other protocols, truncated or damaged sentences lie in between. "
  "The message delivered with it carries the identity, the fields and the typed values (numbers, times, dates, signed latitude and longitude, repeating groups) that the sentence's bytes spell out according to its documented definition. "
  "Nothing else is ever delivered: each raw item is a contiguous stretch of the stream, and items neither overlap nor change order.",
  ["inputs", "schedules", "configurations"],
  "all stream contents (any mix of any defined, proprietary or unknown sentences with junk), all cuts of those bytes into reads of any size, all stream kinds and reader options",
  "The tests read some thirty recorded logs through unfragmented files plus one dummy socket that always returns full buffers; neither the cut points of the transport nor the neighbourhood of damaged data is varied.",
  [RD, SW, MS, HP] + DEFS, [("resynchronising on '$' + talker letter, then line end", RD + " read"), ("attribute walk over the payload definition", MS + " _set_attribute*")],
  ["NMEAReader.read / iteration results", "NMEAMessage attributes and str()"], [("_buffer", "bytes received but not yet consumed", SW)])

p("C02", "How a socket's bytes are cut into segments is invisible",
  "For one byte sequence arriving on a socket, what the reader delivers and what the socket wrapper's read and readline return does not depend on how the network cuts it into segments, on the receive buffer size, or on timeouts between segments other than inside a line being read. "
  "Whatever mixture of read, readline and in_waiting calls is made, the bytes returned plus those still buffered are exactly the bytes received, in order: none lost, duplicated or invented, read(n) never returns more than n bytes, and readline returns at most one CRLF-terminated line.",
  ["schedules", "fault_sequences", "configurations"],
  "all segmentations, buffer sizes from 1 byte up, all sequences of wrapper calls, timeouts and transient socket errors between any two segments",
  "The socket tests use one pool of bytes and a recv() that always fills the buffer, so a boundary inside '$G', a CRLF or a chunk never occurs.",
  [SW, RD], [("internal buffer topped up by recv", SW + " _recv/read/readline")], ["SocketWrapper.read, readline, in_waiting, buffer", "NMEAReader.read"],
  [("_buffer", "received, unconsumed bytes", SW)])

p("C03", "Chunked and compressed socket streams decode to the original bytes",
  "When a server sends a byte stream with chunked transfer encoding, each chunk optionally compressed (gzip, zlib or deflate, or several of them), the reader and the socket wrapper yield exactly the original bytes and sentences up to the terminating chunk, however the data is divided into chunks and however the network cuts the encoded stream into segments. "
  "A pause in the stream at any point, even inside a chunk header or between a chunk and its trailing line end, only delays delivery.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all chunkings (any chunk size, upper/lower case and zero-padded size lines), all encodings, all segmentations and timeouts between segments",
  "One test sends one fixed chunk size through a socket that always fills the buffer; compressed encodings have no test at all.",
  [SW], [("partial chunk carried over to the next segment", SW + " dechunk/_recv")], ["SocketWrapper.read", "NMEAReader.read"],
  [("_partial", "undecodable tail of the last segment", SW)])

p("C04", "Damaged data never surfaces as a parsed message",
  "With checksum validation on (the default), a parsed message is only ever produced from a line whose two check digits equal the exclusive-or of the bytes between '$' and '*'; a wrong, missing or malformed checksum yields no message. "
  "So when the link damages each sentence by at most one burst of up to eight adjacent bits, every message delivered carries exactly the content of a sentence that was sent.",
  ["inputs", "fault_sequences"],
  "all sentences, all positions and patterns of bit errors, byte loss, insertion, duplication and truncation, all stream kinds",
  "Tests contain a handful of fixed bad-checksum lines; the guarantee is about every damage pattern at every position, including damage to the framing characters themselves.",
  [RD, HP], [("checksum comparison", RD + " parse"), ("split into content and checksum", HP + " get_parts"), ("exclusive or", HP + " calc_checksum")],
  ["NMEAReader.read", "NMEAReader.parse"])

p("C05", "An interruption costs at most the sentence it interrupts",
  "If the stream stalls, times out, ends for the moment, is reset, or raises any exception in the middle of a sentence, or a signal handler raises while the reader is at work on one, the reader loses at most that one sentence; every other intact sentence is delivered exactly once by subsequent reads, and nothing is delivered twice or glued together from two sentences. "
  "Exceptions raised by the stream reach the caller, except that socket errors and timeouts are reported as end of data. "
  "End of data is reported as an empty pair by read and as the end of iteration by the iterator, as often as asked, and reading resumes as soon as more data arrives.",
  ["fault_sequences", "crash_points", "histories"],
  "all placements and sequences of timeouts, transient end-of-file, socket and device errors and asynchronous exceptions relative to the bytes of the stream and to the functions the library runs (other than while it moves data out of a socket), on all stream kinds",
  "One test simulates a permanent timeout before any data; no test interrupts a sentence or resumes a reader.",
  [RD, SW], [("EOF handling and truncated-line check", RD + " _read_bytes/_read_line"), ("socket error handling", SW + " _recv")],
  ["NMEAReader.read/__next__", "SocketWrapper.read/readline"])

p("C06", "Errors are reported once, in order, and as configured",
  "Each erroneous sentence (wrong checksum, unusable field, and with message-id validation also a malformed, unknown or undefined sentence) is reported exactly once, in stream position order relative to the sentences delivered, and never delivered as a message: ignored, logged, passed to the error handler, or raised, as the error setting says. "
  "Reported errors are always of the library's documented exception classes, valid sentences are never reported, and without message-id validation unknown sentences are delivered with nominal fields and malformed ones with no parsed message. "
  "Whatever was raised, including by the error handler, the reader remains usable and carries on with the next sentence. In NMEA-only mode data that is not part of a sentence is reported as well.",
  ["inputs", "configurations", "histories"],
  "all placements of faulty sentences among good ones, all error settings, with and without handler, handlers that raise, all validation settings and stream kinds",
  "The tests exercise each setting once on one log with one faulty sentence; counts, order relative to deliveries and continued use after a raised error are not checked.",
  [RD, MS], [("error policy", RD + " _do_error"), ("NMEA-only mode", RD + " read")], ["error handler calls", "log records of the pynmeagps logger", "exceptions from read"])

p("C07", "Hostile or damaged input cannot crash or stall the reader",
  "Whatever bytes arrive, reading, parsing and constructing a message from a received payload either succeed or fail with one of the library's documented exception classes; no other exception escapes. "
  "The work done is proportional to the bytes received: a short sentence can never cause the library to loop without end or for a time unrelated to its length.",
  ["inputs", "fault_sequences", "configurations"],
  "all byte strings, in particular every defined message with any field emptied, missing, surplus, overlong or of the wrong type, in every mode and validation setting",
  "The tests feed a few malformed sentences; the quantifier is over all of them.",
  [RD, MS, HP], [("type error conversion", MS + " _do_attributes"), ("malformed message handling", HP + " get_parts")], ["NMEAReader.read", "NMEAReader.parse", "NMEAMessage(payload=...)"])

p("C08", "A sentence is delivered as soon as it has arrived, without reading ahead",
  "A read returns once the line end of the next sentence has been received: it never waits for bytes after it. "
  "On files and serial ports nothing beyond the sentence's line end is consumed, so the stream is positioned right behind it: another reader, or a restarted process continuing from that position, sees the rest of the stream with no sentence lost or repeated.",
  ["schedules", "crash_points", "inputs"],
  "all arrival times of the bytes of a stream, a hand-over or a crash and restart after any sentence, all stream kinds",
  "Tests read complete files or always-ready sockets: a reader that waited for one more byte, or read ahead, would pass all of them.",
  [RD, SW], [("byte-wise header scan and line-wise read", RD + " _read_bytes/_read_line"), ("returns from buffer before calling recv", SW + " read")],
  ["calls made on the stream", "position of the stream after each read"])

p("C09", "Messages do not influence each other, across time, readers and threads",
  "What a sentence is decoded to, and how a message is built, depends only on that sentence or those arguments and on the options in force: not on the messages handled before (or cut short by an exception from a signal handler), on other readers or builders working at the same time in other threads, or on the clock. "
  "Using the library never changes the message definitions, including definitions supplied by the user, nor any payload list or argument passed to it.",
  ["histories", "schedules", "configurations"],
  "all sequences of preceding operations (including failed ones) and all interleavings of several threads each with its own reader, writer, options and user definitions",
  "Each test parses a sentence in isolation, in one thread, so shared mutable state between messages cannot show.",
  [MS, RD, HP] + DEFS, [("per-object attribute walk with local indices", MS + " _set_attribute*"), ("module level definition tables", "src/pynmeagps/nmeatypes_*.py")],
  ["NMEAReader.read and parse results compared with an undisturbed run"])

p("C10", "Threads sharing one reader get every sentence exactly once",
  "When several threads read from the same reader object, by read or by iterating, every intact sentence is delivered to exactly one of them, unmixed with any other; sentences reach each thread in stream order, and a read that starts after another has finished never returns an earlier sentence. "
  "A thread cut short by a signal handler's exception costs the sentence it was at work on at most. Every error is reported exactly once, no read reports the end of the stream unless the stream has ended or timed out, and no thread is left waiting for ever.",
  ["schedules", "fault_sequences"],
  "all interleavings of two or more reading threads down to single source lines and bytecodes, all segmentations, timeouts in between",
  "No test uses threads; an interleaving between the header bytes and the rest of the line is not reachable by running threads for real.",
  [RD, SW], [("one lock held for a whole sentence", RD + " read")], ["results of concurrent read calls"], [("_lock", "serialises readers", RD)])

p("C11", "A message never changes once it exists",
  "After construction or parsing, any attempt to set or delete an attribute of a message is refused with the library's message error, and its attributes, payload, checksum, text form and serialized bytes stay the same for ever. "
  "This holds whatever other threads do at the same time, including changing the list, dictionary or other arguments the message was made from, or any list obtained from it. Copies of it, and messages restored after pickling (as when sent to another process), are equal to it and just as unchangeable.",
  ["schedules", "histories"],
  "all interleavings of observers and would-be mutators on one message, all kinds of messages and construction routes",
  "One test sets one attribute on one message; deletion, aliasing of the payload and concurrent observation are not covered.",
  [MS], [("attribute guard", MS + " __setattr__/__delattr__"), ("own copy of the payload", MS + " _do_attributes/payload")], ["getattr, str, repr, payload, serialize from several threads"],
  [("_immutable", "set once construction is complete", MS)])

p("C12", "Relaying a sentence reproduces it byte for byte",
  "Reading a conforming sentence and serializing the resulting message yields exactly the bytes received, in every message mode and whatever definition, language or proprietary format it has, so that a chain of relays, each reading from a fragmented and noisy link and forwarding what it parsed, delivers to the last receiver exactly the sentences, in order, that entered undamaged. "
  "Re-parsing a serialized message yields an equal message at every hop.",
  ["inputs", "schedules", "fault_sequences"],
  "all conforming sentences, all chain lengths, all segmentations and faults on the links between relays",
  "Tests serialize a few messages; round trips over all definitions and through fragmented links are not sampled.",
  [MS, RD, SW], [("serialization from the retained payload", MS + " serialize")], ["bytes forwarded by the last relay"])

p("C13", "Nominal time and date of a new message denote one true UTC instant",
  "A message built without explicit time or date fields carries, in all of them, one and the same instant read from the system clock during construction, expressed in UTC whatever the host's time zone. "
  "This holds when midnight, a month or year end passes, or the clock is stepped, in the middle of construction, and when other threads build messages at the same time; fields given explicitly are never replaced by the clock.",
  ["schedules", "fault_sequences", "configurations"],
  "all clock values, all steps of the clock at any read, all host time zones, all definitions with time and date fields",
  "Tests run on the real clock and compare almost nothing of the nominal values; a midnight falling between two fields cannot be scheduled.",
  [MS], [("single instant taken at construction", MS + " __init__/nomval")], ["time and date attributes and payload of the new message"])

p("C14", "GNSS week and time of week survive the trip between clocks",
  "Converting a UTC instant to week number and time of week of a GNSS time system, and back again on a host whose clock reads the same or later, yields the original instant to the millisecond, with automatic rollover for modular week numbers as long as less than one rollover period has passed, and directly for continuous ones. "
  "Time of week always lies within one week and the offset applied is the leap second offset in force at that instant. "
  "This holds in the last seconds of a week, around leap seconds and week number rollovers, for any host time zone and clock reading, and when several threads convert at the same time.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all instants since the epoch of each of the five time systems, all delays and forward clock skews between sender and receiver below one rollover period, all time zones",
  "Tests convert a dozen fixed instants and never control the clock that automatic rollover depends on.",
  [HP], [("leap second table", HP + " leapsecond"), ("conversions", HP + " utc2wnotow/wnotow2utc")], ["utc2wnotow, wnotow2utc, leapsecond"])

p("C15", "A command or query dialogue carries exact values and recovers from faults",
  "A command, query or output message built from values serializes to a conforming sentence with a correct checksum, from which a device implementing the documented definitions reads back exactly those values, to the resolution of the field, with nominal values for those not given. "
  "Over a link that loses, duplicates, delays, cuts and damages data in both directions the host never sees a value the device did not send, and once faults stop every repeated request is answered within a bounded time.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "all defined messages in all modes with any admissible values, all fault sequences on both directions of the link",
  "Tests construct some dozens of messages with fixed values, and never run a dialogue.",
  [MS, RD, HP] + DEFS, [("value to text conversion", MS + " val2str/_set_attribute_single"), ("layout selection", MS + " _get_dict*"), ("checksum generation", HP + " generate_checksum")],
  ["bytes written by the host", "messages read by the host"])

p("C16", "Writing through the reader's stream is exact and independent of reading",
  "Bytes written to a socket through the reader's data stream are handed to the socket unmodified, each write once and in order; the caller learns how many bytes the socket accepted, and a failing write raises its error to the caller. "
  "Writing, including failing writes and writes from another thread in the middle of a read, never alters, loses or repeats anything that is read, and reading, including timeouts, never alters what is written.",
  ["schedules", "fault_sequences"],
  "all sequences of writes with short writes, errors and timeouts, interleaved with reads in one or several threads",
  "One test writes one message to a dummy that discards it.",
  [SW, RD], [("pass-through send", SW + " write")], ["SocketWrapper.write result", "bytes accepted by the socket", "NMEAReader.read"])

p("C17", "A polling application built on threads and queues neither loses nor repeats",
  "An application that reads and parses in one thread, sends queued queries in the same thread and consumes results in another (as the supplied poller and Quectel examples do) passes on every intact sentence it receives exactly once and in order, and delivers every query or command it makes up to the receiver exactly once, in order and intact. "
  "This holds for every interleaving of its threads and any timing of the receiver, read time-outs and read errors included, and once told to stop and the receiver falls silent, the application ends within two time-outs.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of the application's threads, receiver timings, timeouts and device errors",
  "The examples are never executed by the tests.",
  [RD, MS, "examples/nmeapoller.py", "examples/quecteldemo.py"], [("read with timeout, queue hand-over", "examples/nmeapoller.py, examples/quecteldemo.py io_data/process_data")], ["bytes at the simulated receiver", "printed messages"])

p("C18", "The supplied file, socket, track and web programs report what was received",
  "The file and socket programs show every message read from their input exactly once, in order, and count them right; the track program turns every position sentence with a time into one track point carrying the received position, height and time of day, in order, in a well-formed file; and every value the web page is given is the one most recently received, no staler than the last burst of data, whatever the interleaving of the receiving thread and the web clients. "
  "A read error or a full disk ends a program with that error rather than with a silently incomplete result, and running it again gives the complete one.",
  ["fault_sequences", "schedules", "histories"],
  "all contents and segmentations of the input, read errors, interruptions and a full disk at any point, all interleavings of receiving thread and web clients",
  "The examples are never executed by the tests.",
  [RD, MS, SW, "examples/nmeafile.py", "examples/nmeasocket.py", "examples/gpxtracker.py", "examples/webserver/nmeaserver.py", "examples/webserver/gpshttpserver.py"],
  [("reader loop and its use of each message", "examples main / reader / _read_thread, set_data, get_data, do_GET")], ["printed messages and counts", "track file", "answers of the web server"])

p("C19", "What the library keeps in memory does not grow with what it has handled",
  "However long an application runs, the memory the library holds on to does not grow with the number of sentences read, parsed, built, written or rejected, nor with the number of readers and socket wrappers created and dropped. "
  "This holds for any mixture of valid, damaged, unknown and foreign data that contains line ends, on plain and chunked streams, under every error setting, and whatever timeouts, stream errors and failing error handlers interrupt reading, as long as the application keeps no messages and errors itself.",
  ["histories", "fault_sequences", "configurations"],
  "all lengths of operation, all mixtures of data and faults, all error settings and stream kinds",
  "Every test lives for milliseconds; growth shows only after thousands of sentences, and often only for one kind of error or fault.",
  [RD, SW, MS, HP], [("nothing retained between sentences", RD + " read/_do_error, " + SW + " _recv/read/dechunk, " + MS + " __init__")], ["memory allocated by the package and still in use", "NMEAMessage objects alive"])

NA = [
 ("N01", "Geodetic conversions are mutually inverse and accurate",
  "Converting geodetic to earth-centred coordinates and back yields the original position; distances, bearings and areas agree with spherical trigonometry.",
  "pure floating point functions of their arguments", [HP], "llh2ecef, ecef2llh, haversine, planar, bearing, area"),
 ("N02", "Angle and unit formatting helpers are exact",
  "Degree/minute/second conversions, ISO 6709 text, speed and hexadecimal formatting denote the value they were given.",
  "pure functions of their arguments", [HP], "deg2dmm, deg2dms, dms2deg, latlon2dmm, latlon2dms, llh2iso6709, knots2spd, hex2str"),
 ("N03", "Every supported message id has a description and a definition",
  "Each message id the library lists has a description and at least one payload definition, with unique attribute names and valid types.",
  "a fact about static tables", [CORE] + DEFS, "NMEA_MSGIDS, payload dictionaries"),
 ("N04", "The machine-readable form of a message evaluates to an equal message",
  "Evaluating the repr of a message yields a message with the same identity, payload and attributes.",
  "a pure function of the message; no schedule, clock, fault or I/O is involved", [MS], "__repr__"),
]
for id, title, st, why, files, where in NA:
    p(id, title, st, ["inputs"], "all arguments", f"Tests sample a few points of an infinite domain ({why}).", files, [("definition", where)], [where])

with open("/verif/properties.jsonl", "w", encoding="utf-8") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
