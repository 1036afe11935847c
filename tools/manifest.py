"""Writes sim/about.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ["search is seeded sampling: a quiet run is evidence, not proof",
          "the source instrumentation of the scratch copy (sim/tool) keeps the meaning of the code: yields before statements and at function entries, "
          "replacement of sync, time, rand, os by simulated ones, permuted map walks"]
SCHED = ["tasks switch at statement granularity; weaker-than-sequential memory effects are covered by the race detector (every other worker), not by reordering"]
REAL_LIB = ["every package of the working tree of /repo that the property goes through, compiled from its instrumented copy", "Go runtime and standard library"]
A = {}
def about(i, technique, level_note, rule, real=(), stubs=(), assume=(), level="exploration", quick=40, thorough=540, det=40, sched=True):
    A[i] = dict(technique="deterministic simulation with fault injection: " + technique, level=level, level_note=level_note,
                quick=quick, thorough=thorough, det=det, rule=rule, real=REAL_LIB + list(real), stubs=list(stubs),
                assumptions=list(assume) + (SCHED if sched else []) + COMMON)
HIST = " A run counts as non-trivial when a task switch happened or more than one operation was done; distinct by the hash of its whole history."
about("P01", "seeded schedules of tasks creating and using hyphenators from a cold cache, against an independent model of Liang's algorithm on the same rules files",
      "Samples interleavings (statement granularity, PCT, random walk, hot-spot policies) of up to 11 tasks; each word is checked against an independent re-implementation on generated and real rules; opens and bytes read counted; race detector on half of the workers; deadlock and step bounds by the scheduler.",
      "Each run draws languages, options, rules (98% generated small files, 2% the real ones), tasks, words and a schedule." + HIST,
      stubs=["embed.FS of the rules: in-memory files served by the simulated disk, without faults", "sync.Mutex/RWMutex/Once/WaitGroup/Pool/Map and atomics: simulated versions that yield to the scheduler"],
      assume=["a word's expected breaks are those of Liang's algorithm for the rules file, with the options documented in the package (exceptions, minimum lengths)"])
about("P02", "seeded schedules of tasks sharing splitters and texts; every result compared with a lone caller's, texts and earlier results re-read",
      "Samples interleavings of calls on shared hyphenators, punctuators, tokenizers, escape-sequence decoders and explicit hyphens over shared texts; results compared with those computed alone by a fresh splitter before; race detector on half of the workers catches writes into shared text.",
      "Each run draws splitters with options, texts, tasks and their calls, and a schedule." + HIST,
      stubs=["sync and atomics: simulated versions", "embed.FS: in-memory files"],
      assume=["what a lone caller gets is taken from the same code run alone (the property is about sharing), with mutation of text and results checked against private copies"])
about("P03", "seeded schedules of measuring tasks from a cold width table, against widths taken alone in a fresh state",
      "Samples interleavings around the lazy table, with options mixed between tasks; totals compared with sums of rune widths; race detector on half of the workers.",
      "Each run draws tasks, texts (any runes, valid or not), options and a schedule, from a table built before or during the run." + HIST,
      stubs=["sync.Once and friends: simulated versions"], det=6,
      assume=["the width table itself (agreement with Unicode) is not judged: see P31"])
about("P04", "simulated storage with open, read, short-read and list faults at drawn points, under seeded schedules, then a fault-free period",
      "Samples fault sequences (failed open, read error at a drawn byte or read call, short and empty reads, end of file with data, failed listing, failed close) combined with schedules of up to 11 tasks; dictionaries judged against the complete rules on probe words after errors and after recovery.",
      "Each run draws rules, tasks, up to 5 faults (byte position, occurrence, sticky or once) and a schedule." + HIST,
      stubs=["embed.FS of the rules: simulated disk that injects the faults", "sync and atomics: simulated versions"],
      assume=["an error of Close on a file read to its end may or may not be reported", "only errors that the storage signals are faults: silently altered bytes are not"])
about("P05", "fault-injecting sink driven through drawn histories of writes",
      "Samples histories of writes (rune, runes, bytes, nested and by several tasks each with its own writer) on sinks that fail, accept a part, recover; every accepted byte compared with the encoding of the call.",
      "Each run draws writes (valid and invalid runes), a sink behaviour per call, and a schedule." + HIST,
      stubs=["the io.Writer sink: simulated, keeps what it accepts"])
about("P06", "drawn histories of reads, seeks, slicing and interrupted regexp scans against a reference stream model",
      "Samples histories of one or two readers over any slice of valid runes; every answer and the position after it compared with a reference model written from the io contracts.",
      "Each run draws texts and operations with any offset and origin, including failing ones, and a schedule." + HIST,
      assume=["valid origins only for Seek; byte offsets on rune boundaries; valid runes"])
about("P07", "drawn sequences of attribute items, line cuts at any place and interleaved iterators; output replayed on a model terminal",
      "Samples well-nested item sequences with stray stops, cuts, several iterators in one or more tasks; output compared with the break-free one context by context; race detector on half of the workers.",
      "Each run draws items, cut points, walks and a schedule." + HIST,
      stubs=["the writer of the rendering: an in-memory sink"],
      assume=["the order in which stray stops are written relative to text is not judged"])
about("P08", "rendering to a sink that fails, accepts a part of a write and recovers at drawn writes",
      "Samples fault sequences at every write of rendering and line handling; accepted output must be a subsequence of the fault-free one and later renderings complete.",
      "Each run draws items, walks, faults of the sink and a schedule." + HIST,
      stubs=["the writer of the rendering: a simulated sink that injects faults"])
about("P09", "same paragraphs set again under other walk orders of the unordered tables, and in other processes",
      "Map walk order is a seeded choice of the simulator: each paragraph is set several times under different orders in one process, and the same seeds are simulated in four processes, with other settings of the machine (processors, locale, time zone, terminal, garbage collection), whose histories must be equal.",
      "Each run draws paragraphs, width and settings and several walk orders." + HIST,
      stubs=["map iteration order: drawn by the simulator", "embed.FS: in-memory files"], sched=False, det=600)
about("P10", "histories of paragraphs on one line breaker, with callbacks that panic and with other tasks at work, under permuted tables, against a reading-back model",
      "Samples paragraphs, settings, histories and walk orders; lines read back against the tokens and the places where a break is allowed; steps bounded.",
      "Each run draws settings and several paragraphs for one line breaker, sometimes two tasks at once, panicking callbacks." + HIST,
      stubs=["map iteration order: drawn by the simulator", "embed.FS: in-memory files", "measure and splitter callbacks: simulated, may panic"],
      assume=["tokens are non-empty texts without white space; scale factor of at least 1; a space measures one cell"])
about("P11", "histories of paragraphs on one line breaker, with callbacks that panic and with other tasks at work, under permuted tables; lines measured independently",
      "Samples paragraphs (wide, combining, escape-carrying text), widths, settings, histories, walk orders; every line measured with the caller's measure by the harness.",
      "Each run draws settings and several paragraphs for one line breaker, sometimes two tasks at once, panicking callbacks." + HIST,
      stubs=["map iteration order: drawn by the simulator", "embed.FS: in-memory files", "measure and splitter callbacks: simulated, may panic"],
      assume=["whole-number widths and measures; a measure that adds up over the pieces of a token; only start/stop escape sequences"])
about("P12", "histories on one line breaker with refusals and callbacks that panic at drawn calls, each paragraph compared with a new line breaker's",
      "Samples histories, with crashes of the user's callbacks at drawn calls of any paragraph; results compared with those of a newly built line breaker; earlier results re-read at the end.",
      "Each run draws settings, paragraphs and panic points (kind of callback, number of the call)." + HIST,
      stubs=["map iteration order: drawn by the simulator", "embed.FS: in-memory files", "measure and splitter callbacks: simulated, may panic"], sched=False)
about("P13", "seeded schedules of line breakers working at once from a cold start, each compared with working alone",
      "Samples interleavings of up to several tasks with own line breakers, cold caches, shared splitters and tokens; race detector on half of the workers.",
      "Each run draws tasks with settings and paragraphs, what they share, and a schedule." + HIST,
      stubs=["sync and atomics: simulated versions", "embed.FS: in-memory files"], det=6)
about("P14", "histories of attributed paragraphs on one line breaker, with callbacks that panic and with other tasks at work, lines replayed on a model terminal",
      "Samples paragraphs with start/stop sequences anywhere, stray stops, settings, histories; a terminal model gives the attributes of each cell in the input and in the lines.",
      "Each run draws settings and several attributed paragraphs for one line breaker." + HIST,
      stubs=["map iteration order: drawn by the simulator", "embed.FS: in-memory files", "terminal: a model that applies SGR start/stop sequences"],
      assume=["each start is stopped before the next one starts; stray stops may be dropped or kept; other control sequences are out of scope"])
about("P15", "tokens cut, and runes dropped, repeated or changed at drawn points, before decoding",
      "Samples tokens and damage; pieces put back together must be the runes received, decoding must make progress within bounded steps, and intact sequences must be isolated.",
      "Each run draws tokens and faults on their runes (cut, drop, repeat, change)." + HIST, sched=False,
      assume=["an intact sequence is ESC [ parameters m with parameters of at most three digits"])
about("P16", "drawn histories of updates and lookups by clients taking turns, then concurrent readers under seeded schedules, against a map",
      "Samples histories over keys sharing prefixes, by several clients, and concurrent lookups afterwards; race detector on half of the workers.",
      "Each run draws keys, operations, clients and a schedule." + HIST,
      assume=["what Delete returns is not judged"])
about("P17", "simulated disk under the real generator: errors, short writes, full disk, lost writes at a crash, crashes at drawn operations, then a fault-free run",
      "Runs the generator's main over a simulated file system, several attempts per run with faults placed at drawn operations; success means complete files, and the last, fault-free attempt must succeed.",
      "Each run draws sources, faults (operation kind, number, effect), crashes, and leftovers of earlier attempts." + HIST,
      stubs=["os, io/ioutil, path/filepath, log: in-memory disk with crash semantics"], sched=False, quick=30,
      assume=["source lines are shorter than 64 KB", "panics and exits in goroutines started by the generator are not modelled"])
about("P18", "simulated network and disk under the real generator: connection errors, error statuses, cut bodies, disk errors, then a fault-free run",
      "Runs the generator's main over a simulated network and file system, several attempts per run; failed downloads must leave the tables alone and be reported, success means tables that hold the ranges of the downloaded files.",
      "Each run draws property files, faults (per request: connection error, status, cut at a byte, short reads; disk errors) and attempts." + HIST,
      stubs=["net/http client: simulated server", "os, io/ioutil, log: in-memory disk"], sched=False, quick=30,
      assume=["a body cut short is signalled by the transport (Content-Length or chunked encoding)", "a crash while the tables are written is not part of the property"])
json.dump({k: {x: v[x] for x in v if x not in ("technique", "level_note")} for k, v in A.items()}, open(V + "/sim/about.json", "w"), indent=1, ensure_ascii=False)
NA = {
 "P30": "a pure function of the word and the rules: no schedule, clock, I/O or fault in it; the part that depends on them (which rules are loaded, by whom, completely or not) is P01 and P04, whose oracle recomputes the hyphenation points",
 "P31": "a pure function of one code point over constant tables: no schedule, clock, I/O or fault in it; lazy building and sharing of the tables is P03, their generation P18",
 "P32": "a pure function of the text: no schedule, clock, I/O or fault in it; sharing of the splitters is P02",
 "P33": "a pure function of the paragraph and the settings: no schedule, clock, I/O or fault in it (and it is not met today: totals of demerits are not accumulated along a path)",
}
json.dump(dict(version=1, setup_cmd="python3 sim/setup.py",
  checks=[dict(property=k, quick_cmd="python3 sim/check.py --prop %s --tier quick" % k, thorough_cmd="python3 sim/check.py --prop %s --tier thorough" % k,
               evidence_file="evidence/%s.json" % k, technique=v["technique"], level=v["level"], level_note=v["level_note"]) for k, v in A.items()],
  not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="No hooks in /repo: the seams are put in by instrumenting a scratch copy of the working tree (sim/tool). Replay a failure with: python3 sim/check.py --replay FILE"),
  open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
