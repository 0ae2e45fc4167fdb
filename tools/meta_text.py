"""What each check does, for MANIFEST.json and the evidence files."""

REAL = ["pynmeagps.NMEAReader", "pynmeagps.NMEAMessage", "pynmeagps.nmeahelpers", "pynmeagps message definitions", "all of /repo/src/pynmeagps unmodified"]
SIMSTREAM = ["socket / serial port / raw device: simulated endpoints (dst/links.py) fed by the plan; io.BufferedReader, io.BytesIO and gzip.GzipFile are the real ones on top of them",
             "system clock, monotonic clock and time zone: simulated (dst/env.py)"]
SIMTHREAD = ["threading.Lock/RLock/Thread, current thread, sleep and queue time-outs: simulated and scheduled by dst/sched.py (threading.Event/Condition and queue.Queue are the real ones on top of them)"]
TRUST = ["the independent codec dst/icd.py and the snapshot data/icd.json of the documented message definitions are right",
         "CPython executes one simulated thread at a time; a context switch happens only at line or bytecode boundaries inside the package and at blocking calls"]
SEARCH = "deterministic simulation: seeded search over "
DIST = "SHA-256 signature of plan and outcome-relevant choices (stream content, cuts, faults, thread schedule); two runs count once if equal"

CHECKS = {}


def c(pid, technique, note, rule, probes=(), threads=False, extra_real=(), extra_stub=(), assumptions=(), measure=DIST):
    CHECKS[pid] = {
        "technique": SEARCH + technique,
        "note": note,
        "rule": "one evaluation = one simulated run of a generated plan, executed in its own forked process; " + rule,
        "measure": measure,
        "real": REAL + list(extra_real),
        "stub": SIMSTREAM + (SIMTHREAD if threads else []) + list(extra_stub),
        "probes": list(probes),
        "assumptions": TRUST + list(assumptions),
    }


c("C01", "stream contents, cuts and stream kinds, judged by a reference framer and codec",
  "Samples mixes of sentences of every definition with 20 kinds of foreign and damaged data on 6 kinds of stream; all deliveries are compared with an independent framer and decoder. Every definition of every mode is also visited in every run of the check. Not exhaustive.",
  "non-trivial when something was delivered from more than one item",
  ["flavour:socket", "flavour:serial", "flavour:bytesio", "flavour:buffered", "flavour:readonly", "flavour:gzipfile", "def:nominal", "def:nodef", "cut-in-sentence"])
c("C02", "segmentations, buffer sizes, call sequences and time-outs against a byte-queue model",
  "Every run executes one byte sequence under several segmentations and compares all results with each other and with an exact byte model of the wrapper.",
  "non-trivial when more than one segment and more than one call were involved")
c("C03", "chunkings, encodings and segmentations with stalls, judged against the original bytes",
  "A simulated server encodes the stream (chunked x gzip/zlib/deflate); the reader's output must be the original bytes and sentences.",
  "non-trivial when more than one chunk and more than one segment were involved")
c("C04", "injected bit errors, lost, repeated, swapped and inserted bytes, with the sent sentences as oracle",
  "Damage at any position including framing and check digits; every parsed message must have matching check digits, and under single bursts must be a sentence that was sent.",
  "non-trivial when at least one sentence was damaged and at least one item delivered")
c("C05", "placements of time-outs, transient EOF, exceptions and signals relative to the bytes of the stream and the library's calls",
  "Interruptions at every kind of position on four stream kinds; deliveries are compared with the set of sentences not interrupted.",
  "non-trivial when an interruption fell inside the stream and something was delivered",
  ["interrupted-in:header", "interrupted-in:body", "interrupted-in:checksum", "interrupted-in:line-end"])
c("C06", "placements of erroneous sentences, error settings and failing handlers, judged as a merged history of deliveries and reports",
  "The whole history of deliveries and error reports must equal the one an independent decoder predicts, under every error and validation setting, including handlers that raise.",
  "non-trivial when at least one error was due and more than one event expected",
  ["report:handler", "report:log", "report:raise", "report:ignore", "report:raise+handler", "report:ignore+handler", "malformed-delivered-bare", "unknown-delivered-nominal"])
c("C07", "hostile sentences and byte strings under a work budget",
  "Only documented exceptions may escape (also from malformed chunk framing and compressed data, and with user-defined definitions); calls and loop iterations of the package are counted and bounded by a linear function of the bytes received (BASE 2000 + 60 per byte; highest seen about 6 per byte).",
  "non-trivial when at least one hostile input reached the parser")
c("C08", "arrival times of bytes, hand-overs and crash/restart points",
  "The simulated stream records every request for bytes beyond a sentence's line end; crash and restart from the recorded position must lose and repeat nothing.",
  "non-trivial when more than one sentence was delivered")
c("C09", "operation histories, clocks and thread interleavings, compared with an undisturbed run",
  "Each job's result alone, in another order under another clock, and interleaved with other threads at line or bytecode granularity must be equal, and equal to the independent codec's; up to three jobs of a run are also done in a process that has done nothing else.",
  "non-trivial when threads were switched more than twice and there was more than one job", threads=True)
c("C10", "interleavings of threads sharing one reader, judged over the recorded history of reads",
  "Two to four threads at line or bytecode granularity; exactly-once, order, error count, real-time order and termination are checked over the history.",
  "non-trivial when threads were switched more than twice and more than one thread received a sentence", threads=True)
c("C11", "interleavings of observers and mutators of one message",
  "Observers sample everything visible of a message while other threads attempt to change it or the objects it was made from.",
  "non-trivial when threads were switched and a change was attempted", threads=True)
c("C12", "relay chains over fragmented and noisy links",
  "Bytes forwarded at each hop must be those received, up to the last receiver; every definition of every mode is visited in every run of the check.",
  "non-trivial when more than one sentence crossed more than one hop")
c("C13", "clock readings, steps and time zones during construction",
  "The simulated clock advances or is stepped at each reading; all nominal time and date fields must denote one instant read during construction, in UTC; in a quarter of the plans several threads build at the same time.",
  "non-trivial when the message has clock fields and the clock moved during construction, or threads were switched", threads=True)
c("C14", "sender and receiver clocks around week ends, leap seconds and week number rollovers",
  "Exact integer model of the five time systems and the leap second table; some plans convert in several threads at once.",
  "non-trivial when the instant was away from the epoch of the system", threads=True)
c("C15", "values, definitions and faulty command/response dialogues with a simulated device",
  "A device built on the independent codec answers over a link that loses, repeats, delays, cuts and damages; every definition and mode is built in every run of the check; liveness is bounded once faults stop.",
  "non-trivial when the dialogue had at least one fault or more than one field was given a value",
  ["request-answered-after-fault", "request-repeated"])
c("C16", "short, failing and concurrent writes interleaved with reads",
  "The bytes the simulated socket accepts and what the reader delivers are compared with the calls made.",
  "non-trivial when there were reads and writes and at least one write was short or failed or threads were switched", threads=True)
c("C17", "interleavings of the supplied polling applications with a simulated receiver",
  "Runs examples/nmeapoller.py and examples/quecteldemo.py unmodified (its main, or its two thread functions) with simulated threads, sleep and serial port.",
  "non-trivial when threads were switched more than ten times and sentences and queries were both exchanged", threads=True,
  extra_real=["examples/nmeapoller.py", "examples/quecteldemo.py"], extra_stub=["pyserial's Serial class: simulated port", "print(): recorded"])
c("C18", "the supplied file, socket, track and web programs on simulated files, disks, sockets, serial ports and clients",
  "Runs examples/nmeafile.py, nmeasocket.py, gpxtracker.py and webserver/nmeaserver.py with gpshttpserver.py unmodified: read errors, a full disk, resets, Ctrl-C, thread interleavings of receiver and web clients.",
  "non-trivial when more than one message was handled (web: and threads were switched more than five times)", threads=True,
  extra_real=["examples/nmeafile.py", "examples/nmeasocket.py", "examples/gpxtracker.py", "examples/webserver/nmeaserver.py (GNSSStreamer)", "examples/webserver/gpshttpserver.py (request handler)", "io.BufferedReader"],
  extra_stub=["open(): simulated log file and track file", "socket.socket: simulated connection", "pyserial's Serial class: simulated port", "print(): recorded", "the HTTP connection: one request in memory"])

c("C19", "mixtures of thousands of sentences, stream faults and application activity, judged by what stays allocated",
  "Long simulated runs (thousands of sentences, time-outs, resets, failing handlers, readers and wrappers created and dropped, messages built, written and parsed); what the package has allocated and not freed is compared between the middle and the end (tracemalloc, after garbage collection). Growth of less than 6 bytes per round plus 32 kB is tolerated, so bounded caches and very small leaks pass.",
  "non-trivial when more than a thousand sentences were delivered or reported",
  ["report:handler", "report:log", "report:raise", "report:ignore", "report:boom", "flavour:socket", "flavour:serial", "flavour:readonly", "flavour:buffered"],
  assumptions=["tracemalloc attributes each block to the line that allocated it"])

PURE = "Not claimed: a pure function of its arguments (or a fact about static tables); it involves no concurrency, time, I/O, fault or multi-party behaviour that deterministic simulation could vary, so this technique has nothing to decide here."
NOT_APPLICABLE = {p: PURE for p in ("N01", "N02", "N03", "N04")}
