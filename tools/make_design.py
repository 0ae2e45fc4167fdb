import json,os
d=open('/verif/DESIGN.md').read()
i=d.index('## 4. Defects found')
head=d[:i]
MISSED={
 'c09-num-cache':'results compared with those of a fresh process; numbers that are equal but written differently',
 'c12-id-memo':'runs forked from one pristine process, so that address reuse replays',
 'c09-lazy-types':'phases of a run in any order',
"c01-sign-order":"coordinates on whole degrees added to the generator",
"c09-time-memo":"preemption also inside helper modules; threads that share epochs","c03-gzip-limit":"(seed 2) more and larger compressed chunks",
"c11-class-flag":"mutators run while other constructions fail or proceed",
"c13-round-time":"instants next to the ends of seconds, minutes and hours",
"c15-group-order":"keyword order shuffled",
"c17-read-lock":"simulated receiver with short time-outs and split sentences",
"c07-recursion":"floods of erroneous sentences",
"c13-empty-given":"fields given explicitly as empty",
"c15-decimal-round":"more digits after the point",
"c17-iter-limit":"lost sentence tails",
"c01-index-wrap":"groups of up to 130 items",
"c05-give-up":"up to 300 interruptions at one point",
"c06-error-cap":"streams of up to 1500 lines",
"c03-big-chunk":"chunks of 64 kB and more",
"c07-redos":"long runs of one character or pair; processor-time limit",
"c16-rw-lock":"devices that answer only after a write (request and response)",
}
extra=json.load(open('/tmp/missed_extra.json')) if os.path.exists('/tmp/missed_extra.json') else {}
MISSED.update(extra)
rows=["| planted bug | caught by | needs | first missed; strengthened by |","|---|---|---|---|"]
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {MISSED.get(b,'')} |")
nf=len(json.load(open('/verif/known_findings.json'))['fixed'])
body=f'''## 4. Defects found

{nf} defects were found by these checks (or while writing their oracles) and
repaired in /repo with `fix:` commits; `known_findings.json` lists each with its
property and commit. (One further commit, 3d4b632, only restores the CRLF line ends of
two files that an earlier commit of mine had normalised.) Three defects are recorded and
not repaired: `nmeaonly=True` ignores foreign bytes that do not start with `$`
(existing users may depend on blank lines and other bytes being skipped);
`examples/quecteldemo.py` makes up six commands without sending them; and
`examples/gpxtracker.py` fails on a GGA sentence without a time, losing the whole track
(files under `examples/` are not to be changed here; a commit that did was reverted).
Each is tied to one recorded plan under `known/`; C17's search tolerates exactly those
six messages, sent as a repeat of the one before, and C18's tolerates no lost track
except for a sentence without time.

Observed, but outside the properties: `STMSETPARERROR` and `UBX,06` are listed ids
without definition; the `FOO` test definition has invalid types; `QTMCFGGEOFENCE_DIS`
in GET mode cannot be reached; the checksum comparison upper-cases Unicode;
`webserver` can leave a sentence in its `BufferedReader` until more data arrives.

## 5. Generators that go beyond the shipped definitions

* `dst/userdef.py` makes random user-defined definitions (`userdefined=`): nested,
  counted, fixed and open-ended groups, scaled and date/time types, mixed-case ids.
  C01 (a quarter of its plans), C07, C12, C13 and C15 use them, with the same independent
  codec as oracle, so that code paths no shipped definition reaches are judged too.
* Chunked streams (C03) use chunk extensions, zero-padded sizes, upper and lower case
  hex digits, and trailers. C07 has malformed ones: missing, signed, huge and non-hex
  sizes, wrong terminators, cut and damaged compressed data.
* C07 floods the reader with thousands of erroneous sentences (recursion, growth) and
  with long runs of one character or pair (patterns that backtrack).
* C15 builds values next to every rounding edge of the wire format (whole degrees and
  minutes, ends of minute/hour/day, exponents, many decimal digits), and leaves out
  fields that decide between alternative layouts.
* C14 visits every rollover of every system up to the year 2400.
* Scale: a few plans in a thousand have streams of up to 1500 sentences (C01-C03, C05,
  C06), groups of up to 130 items, chunks above 64 kB, or hundreds of interruptions at
  one point, since limits and counters are what small plans never reach.
* C17 runs two of the repository's applications (`nmeapoller.py`, `quecteldemo.py`)
  unmodified: their threads, queues, sleeps and serial port are simulated. Every command
  the application says it queues must reach the receiver, once and in order.
* C18 runs the file, socket, track and web programs unmodified. The disk of the track
  program can fill up at any write; what it leaves must be a GPX document that parses
  and holds exactly the fixes received before the fault, or the fault must be reported.
  The web program's reader thread and its request handler are preempted at every line.
* C06 pauses streams between sentences, leaves check digits out or malforms them, and puts
  unusable text into any field of any definition. C09 has plans in which several threads
  decode or build the same few epochs, so that remembered conversions would be mixed up.
  C03 sends chunks that are far longer than they are when compressed.
* C11 also copies, deep-copies and pickles messages: copies are equal and as unchangeable.
* C19 runs readers for thousands of rounds; what each interval adds is taken from the
  allocator's own records (tracemalloc, by the allocating line of the package).
* C05, C09 and C10 also raise an exception, as a signal handler would, at the n-th function
  the library enters (`kernel.Signals`, through `sys.monitoring`): it may cost the sentence
  at work on, must reach the caller, and must leave no lock held and no state behind. It is
  held back while the socket wrapper moves data: there pure Python cannot do better.
* Error handlers may be objects that are false in a condition, raise, or read on from the
  same reader (C06). Buffers, lines and segments go up to 200 kB (C02, C03).

## 6. False alarms met and what was corrected

* C02 compared deliveries at points where a time-out cut a line; a time-out may cost the
  sentence it interrupts (C05), so quiet positions were restricted to line ends.
* C01/C15 took loose date and time spellings (`2024-1-1`) for text the library must
  reproduce; such texts are no longer generated as given values.
* C15 reported a bit flip that changes the case of a check digit (or CR into LF) as a
  damaged sentence that was accepted. The sentence is equivalent; sentences are now
  compared by their content before `*`.
* C05/C17 insisted that an interrupted sentence is lost or cut, as the current code
  does; a `readline` that keeps what it has and delivers the sentence whole is no
  violation. Interrupted sentences may now be delivered, others must be.
* C07's bound on steps and C17's bound on simulated time were too close to the present
  implementation (and 2 million steps, the general budget, too few for a receiver that
  talks for a long time; it is 20 million now); a behaviour-preserving rewrite of all four modules
  (`tools/refactor.py`, applied to a copy) crossed them. They now have slack of a
  constant factor. All checks are quiet on that rewrite.
* C19 took two kinds of bounded growth for leaks: caches of the interpreter
  (attribute names, time formats), and a bounded cache in the package (`lru_cache` of 512
  and 2048 entries, tried as a harmless change) that was still filling up at the last
  mark. Growth is now followed over three more doublings before it is reported.
* C11's budget of 800 000 steps was too small for one message of 6 kB with 200 groups
  and preemption at every bytecode; the budgets of all threaded checks are now 6 million
  or more (the largest seen in 1500 plans is 320 000).

## 7. Testing the machinery

* `tools/determinism.py N`: N seeds per property executed twice in separate processes,
  with different worker counts; digests over all events must agree.
* `tools/selfcheck.py`: the independent codec against the snapshot and the corpus.
* `tools/plant.py`: makes, confirms (tests pass, demonstration fails with and passes
  without the change) and hunts planted bugs in copies of /repo.
* `tools/drift.py N`: random steps of the minimiser applied to random plans; on the
  unchanged tree none may end in a violation, so that a minimised replay shows the
  defect and not an ill-formed plan.
* `tools/rare.py SPEC`: runs the checks against hand-written changes that need a rare
  trigger (`tools/rare1.py` to `rare5.py`, about 215 changes), many of which became planted bugs.
* `tools/refactor.py DIR`: rewrites the four modules of a copy without changing what
  they do.
* `tools/mutate.py`: applies small syntactic changes (operators, constants, branches,
  removed statements, definition entries) to a copy; those that survive the
  repository's tests are given to the checks with a small budget.
  Code: 350 mutants, 264 killed by the tests, 49 caught by the checks, 37 survivors,
  each read: two showed gaps (rollover 8193 of BDS in C14, default layouts of
  `QTMCFGPPS`/`QTMCFGGEOFENCE` in C15), since closed; the rest do not change behaviour,
  or only what no documentation specifies (texts of error messages, log lines).
  Definitions: 160 mutants, 83 killed by the tests, the other 77 all caught.
* Every `fix:` commit was reverted in a copy, and the check of its property reports it
  (`tools/reverts.sh`).

**Limits.** A check explores; it does not prove. Search depth is what the time allows:
quick 8 000-28 000 plans per property (1200 for C17 and 280 for C19, whose runs are long), thorough 12
times as many. Damage is judged only in forms the check value is bound to detect.
Scheduling is preemptive at every line (in part of the plans every bytecode) of the
package; C code is atomic, as with the interpreter lock. Real processor time is used
for one thing only: a run that takes more than 25 s of it is cut off and reported as
`hang` (a regular run takes milliseconds), because a regular expression that backtracks
forever executes no bytecode that could be counted.

## 8. Planted bugs: what catches what

Every planted bug in `seeded/` is caught by the quick check of its own property.
The last column gives what was strengthened because a bug was missed at first.

'''+"\n".join(rows)+"\n"
head=head.replace("| C17 | examples/nmeapoller.py + simulated receiver | preemption, receiver timing, read errors, Ctrl-C | exactly once in order both ways, bounded stop |","| C17 | examples/nmeapoller.py, examples/quecteldemo.py + simulated receiver | preemption, receiver timing, read errors, Ctrl-C | exactly once in order both ways, bounded stop |")
head=head.replace("mutated fields, counts, random bytes, endless lines | documented exceptions only, linear work","mutated fields, counts, random bytes, endless lines, malformed chunks, floods | documented exceptions only, linear work")
head=head.replace("time-outs, transient EOF, 13 exception kinds","time-outs, transient EOF, 13 exception kinds")
head=head.replace("| C16 | writer(s) + reader on one socket | short writes, errors, time-outs, preemption |","| C16 | writer(s) + reader on one socket or port | short writes, errors, time-outs, preemption, answers that wait for a write |")
open('/verif/DESIGN.md','w').write(head+body)
