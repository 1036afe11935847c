import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
H="wordbreak/hyphenator/"
prop("P01","Hyphenation rules: concurrent first use is complete, isolated, loaded once",
 "However many goroutines create and use hyphenators at the same time, in whatever languages, options and interleaving, each one works with the complete rules of the language it asked for (regional variants get their base language) and with its own options, so its word breaks are exactly those a lone caller gets from those rules. The rules of one language are read at most once per process when reading succeeds. No interleaving deadlocks, panics or races.",
 ["schedules","histories","configurations"],"Every interleaving of any number of goroutines that create hyphenators (any language, any options) and break words, from a cold or warm cache.",
 "The tests build hyphenators from parallel subtests, once, in whatever order the Go scheduler happens to pick, on a handful of words; a window in the lazy, mutex-protected cache shows only in interleavings they never force, and they cannot see a data race.",
 [H+"cache.go",H+"hyphenator.go",H+"dictionary.go",H+"languages.go",H+"options.go"],
 [("mutex around the lookup and the load of the per-language dictionary",H+"cache.go:loadDictFromCache"),("dictionary is never written after it was loaded",H+"dictionary.go:LoadPatterns"),("language tag is matched to a rules file",H+"languages.go:langToPattern")],
 [("loadedPatterns","process-wide cache of dictionaries, keyed by rules file",H+"cache.go"),("Dictionary","tries of patterns and exceptions shared by all hyphenators of a language",H+"dictionary.go")],
 ["hyphenator.New","Hyphenator.BreakWord","Hyphenator.String","reads of the rules files"])
prop("P02","Word and token splitters can be shared by goroutines, and so can the text",
 "One hyphenator, punctuator or tokenizer, and one text, may be used by any number of goroutines at once: every call of a splitter (hyphenation, punctuation, tokens, explicit hyphens, terminal escape sequences) returns what it returns to a lone caller. No call ever modifies the text it was given or a result handed out earlier, and no interleaving races, panics or deadlocks, even when the split function of a caller uses a splitter itself or panics.",
 ["schedules","histories"],"Every interleaving of calls on shared splitters over shared texts, and every later call after a result was handed out.",
 "Tests call each splitter from one goroutine on its own input and compare at once; none shares an instance or a text between goroutines, re-reads an older result after later calls, or watches the input.",
 [H+"hyphenator.go","wordbreak/punctuator/punctuator.go","wordbreak/tokenizer/tokenizer.go","terminal/ansi/ansi.go","terminal/runes/fields.go"],
 [("per-call buffers only",H+"hyphenator.go:BreakWord"),("results are sub-slices of the input or fresh slices, never written afterwards","terminal/runes/fields.go, wordbreak/punctuator/punctuator.go, terminal/ansi/ansi.go")],
 [("input text","shared by callers; results alias it","all splitters")],
 ["BreakWord, BreakWordString, SplitWord, IsHyphen, IsPunctuation, FieldsFunc, StripToken, StripANSIFromRunes"])
prop("P03","Rune widths do not depend on schedule, on other callers or on earlier options",
 "The display width reported for a rune or a text is a function of that text and of the options passed in that very call: it does not depend on who measured first, on who measures at the same time, or on options used by earlier or concurrent calls. East-Asian mode changes the width of ambiguous runes only (to the width asked for; and of emoji too, to 2, if so asked), and the other options have no effect without it. The width of a text is the sum of the widths of its runes, and measuring any slice of runes, valid or not, neither panics nor races.",
 ["schedules","histories","inputs"],"Every interleaving of measuring calls with any mix of options, starting before or after the lazily built lookup table exists.",
 "Tests measure from one goroutine with the table already built or not by accident of test order; they never interleave the first use, mix options between callers, or compare text widths with rune widths over arbitrary runes.",
 ["terminal/runes/width.go","terminal/runes/lookup.go","terminal/runes/options.go","terminal/runes/runes_tables.go"],
 [("lookup table built once","terminal/runes/lookup.go:initLookupTable via buildLookupOnce"),("options copied per call","terminal/runes/options.go:optionsWithDefaults")],
 [("lookupTable","lazily built packed widths of all code points","terminal/runes/lookup.go"),("defaultOptions","process-wide defaults shared by calls without options","terminal/runes/options.go")],
 ["runes.Width","runes.Widths","runes.StringWidth","runes.IsAmbiguous"])
prop("P04","Loading hyphenation rules is all-or-nothing under storage faults, and recovers",
 "If a rules file cannot be opened, or reading it fails at any point, loading it reports an error and never yields a dictionary holding only a part of the rules; reads that are merely short change nothing. A failed load is not remembered: once the storage works again, the next hyphenator of that language has the complete rules, and other languages are never affected.",
 ["fault_sequences","schedules","histories"],"Every sequence of open errors, read errors at any byte and short reads, under any interleaving of callers, followed by a fault-free period.",
 "The tests load the five embedded files once from storage that never fails; no test makes an open or a read fail, or creates a hyphenator again after a failure.",
 [H+"dictionary.go",H+"cache.go",H+"embedded.go"],
 [("errors of the scan are reported",H+"dictionary.go:LoadPatterns"),("only loaded dictionaries enter the cache",H+"cache.go:loadDictFromCache")],
 [("loadedPatterns","cache of dictionaries",H+"cache.go")],
 ["hyphenator.LoadPatterns","hyphenator.SupportedPatterns","hyphenator.New","BreakWord after recovery"])
prop("P05","Rune writer: what reaches a faulty sink is an exact, counted, reported prefix",
 "In every call of the rune writer, the bytes its sink accepts are a prefix, in order, of the UTF-8 encoding of the runes (or of the bytes) of that call, with invalid runes encoded as U+FFFD. The count returned is the number of bytes the sink accepted, and an error is returned whenever that is not all of them. Nothing is sent twice, kept back for a later call, or lost after a success, whatever failures, panics of the sink and short writes came before.",
 ["fault_sequences","histories","inputs"],"Every sequence of writes (runes, rune slices, bytes) and every sequence of sink failures, short writes and recoveries.",
 "The only test writes three short strings to an in-memory buffer that never fails or writes short.",
 ["terminal/runes/runesio/writer.go"],
 [("encode into a private buffer and make one write to the sink","terminal/runes/runesio/writer.go:writeRune, writeRunes")],
 [("sink","the io.Writer given by the caller","terminal/runes/runesio/writer.go")],
 ["Writer.WriteRune","Writer.WriteRunes","Writer.Write","bytes received by the sink"])
prop("P06","Slice reader behaves as a seekable stream of runes through any history",
 "Through any history of reads, seeks and slicing, up to and past the end of the stream, the reader delivers the runes of its slice one by one in order from the current position, each with its size in UTF-8 bytes (the size of U+FFFD for an invalid rune), then end-of-file; the unread rest is what has not been delivered. A seek lands exactly where the io.Seeker rules say, in runes, or fails without moving; slicing by rune offsets, or by byte offsets such as those a regexp reports on the reader, returns exactly those runes and moves nothing.",
 ["histories","inputs"],"Every history of reads, seeks (any offset and origin), slicings and regexp scans interrupted anywhere, over any slice of runes, valid or not.",
 "Tests follow one fixed path over one ASCII word and one accented word; positions after failed seeks, reads past the end and mixes of slicing and reading are not sampled.",
 ["terminal/runes/runesio/slice_reader.go"],
 [("single offset, range-checked before it moves","terminal/runes/runesio/slice_reader.go:Seek"),("offsets in bytes mapped to runes by summing sizes","terminal/runes/runesio/slice_reader.go:SliceFromByteOffsets")],
 [("offset","index of the next rune","terminal/runes/runesio/slice_reader.go")],
 ["ReadRune","Runes","Seek","Slice","Slices","SliceFromByteOffsets"])
prop("P07","Attribute state: lines broken anywhere stay closed, and contexts are restored",
 "For every well-nested sequence of rendered items (each a renderer of its own) and every choice of points where a line is ended and a new one started, the output has no open presentation context at the end of a line, closes contexts innermost first, and shows every piece of text in exactly the contexts it has when rendered without any break. All text appears once and in order, and unmatched stop sequences do not disturb what follows. Several walks over the same state, interleaved or concurrent, do not affect one another.",
 ["schedules","histories","inputs"],"Every well-nested sequence of items (with possible stray stops), every set of line-break points, and every interleaving of several iterators.",
 "The only tests for this package do not compile, and they assert list length and two levels, not what is written at a line break.",
 ["attributes/state.go","attributes/attribute.go","attributes/iface.go"],
 [("nesting levels assigned when items are pushed","attributes/state.go:Push"),("backtrack over the chained list at line ends","attributes/state.go:StartOfLine, EndOfLine")],
 [("State.list","chained list of renderers","attributes/state.go"),("StateIterator.current","position of a walk","attributes/state.go")],
 ["State.Push","Iterator/First/Next/Item","StartOfLine","EndOfLine","output written"])
prop("P08","A failing output never corrupts attribute rendering or its state",
 "Whatever writes fail or are cut short while items are rendered and lines are ended and started, rendering neither panics nor repeats or reorders output: what the sink accepted is a subsequence of the fault-free output. The state is not altered, not even by a sink that panics: rendering it again to a working sink, before, during or after the failures, gives the complete fault-free output.",
 ["fault_sequences","histories"],"Every sequence of sink failures, short writes and recoveries at any write of any rendering, and any number of further renderings.",
 "No test renders to a writer that fails, and the attributes tests do not compile.",
 ["attributes/attribute.go","attributes/state.go","attributes/iface.go","terminal/runes/runesio/writer.go"],
 [("rendering only reads the items","attributes/attribute.go:Start, Stop, Render"),("iterator advances independently of the writer","attributes/state.go")],
 [("Attribute","text and sequences of an item","attributes/attribute.go")],
 ["Attribute.Render","Renderers.Start/Stop/Render","StartOfLine/EndOfLine","bytes received by the sink"])
prop("P09","Line breaking is repeatable: same paragraph and settings, same lines",
 "Setting the same tokens to the same width with the same settings gives the same lines, or the same refusal, every time: in the same process, in another process, and whatever order the runtime happens to walk its internal tables in.",
 ["schedules","inputs","configurations"],"Every paragraph, width and configuration, under every iteration order of the unordered tables used on the way.",
 "Tests print the lines and assert nothing about them, the package's tests do not even compile, and the order in which Go walks a map is drawn at random on each run.",
 ["linebreak/knuth_plass.go","linebreak/knuth_plass_types.go","linebreak/linebreaker.go"],
 [("candidates of each fitness class are turned into break points","linebreak/knuth_plass.go:insertNewActiveBreak")],
 [("activeNodes","feasible break points kept while scanning the paragraph","linebreak/linebreaker.go"),("candidates","best predecessor per fitness class (unordered table)","linebreak/knuth_plass.go:mainLoop")],
 ["LineBreaker.LeftAlignUniform"])
prop("P10","Line breaking keeps the text: nothing lost, added, repeated or reordered",
 "When a paragraph of plain or attributed words (each with some text) can be set, reading the lines in order (start and stop sequences set aside) gives back exactly the tokens, with one space between two tokens of a line and none at its ends (for a measure that gives a space a positive width); no line is blank. Lines break only between tokens, after punctuation marks and, if word breaking is on, after explicit hyphens or at hyphenation points; the only addition is one hyphen at the end of a line that stops at a hyphenation point, and only if hyphens are to be rendered. Any paragraph either yields lines or is refused with the documented error (never, for a whole scale factor and hyphens which are not rewarded, when it fits on one line, nor when each of its words does and the tolerance, 10000 or more, accepts lines however loose), within a number of steps bounded by a polynomial of its size, without panicking.",
 ["inputs","configurations","schedules"],"Every paragraph, width and combination of settings (word breaking, hyphen rendering, penalties, tolerance, splitters), under every iteration order of internal tables.",
 "The package's tests do not compile and only print lines; no test compares the lines with the tokens, varies penalties, or bounds the work done.",
 ["linebreak/linebreaker.go","linebreak/knuth_plass.go","linebreak/options.go"],
 [("lines are consecutive runs of boxes between break points","linebreak/linebreaker.go:render"),("soft hyphens are rendered only where a line is broken","linebreak/linebreaker.go:render")],
 [("nodes","boxes, glues and penalties of the paragraph","linebreak/linebreaker.go")],
 ["LineBreaker.LeftAlignUniform"])
prop("P11","No line is wider than asked for",
 "Whenever a paragraph is set, every line, measured as displayed (escape sequences excluded, rendered hyphen included) with the same measure that was given to the line breaker, fits in the requested width, whatever the unit of the measure and the scale factor (for a measure that adds up over the pieces of a token).",
 ["inputs","configurations","schedules"],"Every paragraph (including wide, combining and escape-sequence-carrying text), width and configuration, under every iteration order of internal tables.",
 "The package's tests do not compile; they pad lines and never compare their width with the limit.",
 ["linebreak/linebreaker.go","linebreak/knuth_plass.go"],
 [("adjustment ratio of overfull lines is never feasible","linebreak/knuth_plass.go:adjustmentRatio, mainLoop"),("hyphen width is counted in the penalty","linebreak/linebreaker.go:pushHyphen")],
 [("sum, totals","running totals of widths from which line widths are derived","linebreak/knuth_plass.go")],
 ["LineBreaker.LeftAlignUniform"])
prop("P12","A line breaker can be reused: earlier paragraphs leave no trace",
 "Each paragraph set by a line breaker gets exactly what a newly built line breaker with the same settings gives, whatever the same line breaker did before: paragraphs set, with or without presentation attributes, paragraphs refused, and paragraphs abandoned midway because a user-supplied measuring or splitting function panicked.",
 ["histories","fault_sequences"],"Every history of paragraphs on one line breaker, with refusals and callback failures at any point.",
 "Every test builds a new line breaker for its one paragraph, and none makes a callback fail.",
 ["linebreak/linebreaker.go","linebreak/knuth_plass.go","attributes/state.go"],
 [("per-paragraph state is rebuilt at the start of each paragraph","linebreak/linebreaker.go:LeftAlignUniform, linebreak/knuth_plass.go:breakPoints")],
 [("attrList","attribute state accumulated while boxes are built","linebreak/linebreaker.go"),("sum, activeNodes, nodes, lineWidths","algorithm state","linebreak/linebreaker.go")],
 ["LineBreaker.LeftAlignUniform"])
prop("P13","Line breakers working at the same time do not affect one another",
 "Line breakers built and used at the same time by different goroutines in any interleaving, or one within a callback of another, even from a cold start and even sharing a hyphenator, a punctuator and the tokens, each give what they give alone, without data races, deadlocks or panics.",
 ["schedules"],"Every interleaving of any number of goroutines, each setting paragraphs with its own line breaker, whose callbacks may set paragraphs with others.",
 "Tests run one line breaker at a time.",
 ["linebreak/linebreaker.go","linebreak/options.go","linebreak/knuth_plass.go",H+"cache.go","terminal/runes/lookup.go"],
 [("all working state belongs to the line breaker","linebreak/linebreaker.go"),("shared lazily built state is synchronised",H+"cache.go, terminal/runes/lookup.go")],
 [("process-wide caches","dictionaries and rune widths",H+"cache.go, terminal/runes/lookup.go")],
 ["linebreak.New","LineBreaker.LeftAlignUniform"])
prop("P14","Set lines keep terminal attributes: cells as in the input, lines closed",
 "When tokens carry terminal start and stop sequences, each start (of any parameters, leading resets included) being stopped before the next one starts, a terminal showing the set lines displays every character with the attributes it has in the input, wherever lines are broken, and no line ends with an attribute still on. No start or stop sequence is lost, even one with no text next to it, and stray stop sequences do not disturb what follows.",
 ["inputs","schedules","configurations"],"Every paragraph with un-nested start/stop sequences at any position in or between tokens, every width and configuration, under every iteration order of internal tables.",
 "The package's tests do not compile and only print the lines of one paragraph with two attributes.",
 ["linebreak/linebreaker.go","linebreak/knuth_plass_types.go","attributes/state.go","terminal/ansi/ansi.go"],
 [("tokens are stripped into text, start and stop","terminal/ansi/ansi.go:StripToken"),("attribute state closes and restores contexts at line ends","attributes/state.go, linebreak/linebreaker.go:render")],
 [("attrList","items of the paragraph in order","linebreak/linebreaker.go")],
 ["LineBreaker.LeftAlignUniform","terminal.ansi.StripToken"])
prop("P15","Escape-sequence decoding survives cut and corrupted streams, losing no rune",
 "Decoding a token that was cut at any point, or had runes dropped, repeated or changed, always terminates, never panics or reaches outside the token, and gives pieces that, put back in order, are exactly the runes received. Every piece but the last consumes at least one rune; an intact start or stop sequence (any number of parameters of up to three digits) that follows plain text or another intact sequence is always isolated, never left in a text.",
 ["fault_sequences","inputs"],"Every token and every cut, drop, repetition or change of runes in it.",
 "Tests decode some thirty hand-written tokens, four of them truncated; none cuts a sequence at each possible point or uses three-digit parameters.",
 ["terminal/ansi/ansi.go","terminal/runes/runesio/slice_reader.go"],
 [("sequence scanner with rewind on a seekable reader","terminal/ansi/ansi.go:decodeANSISequence, decodeText"),("remainder is handed back","terminal/ansi/ansi.go:StripANSIFromRunes")],
 [("reader offset","how much of the token is consumed","terminal/runes/runesio/slice_reader.go")],
 ["ansi.StripToken","ansi.StripANSIFromRunes"])
prop("P16","The rules store is a faithful map through any history of updates and lookups",
 "Through any history of insertions, replacements, deletions and lookups, in any interleaving of clients that take turns, looking up a key gives the value last stored under exactly that key and not deleted since, and nothing otherwise, whatever keys that are prefixes or extensions of it were stored or deleted. Insertion tells whether the key had no value, and once updates stop any number of readers can look up concurrently.",
 ["histories","schedules"],"Every history of operations over keys sharing prefixes, every interleaving of clients, and concurrent lookups after updates.",
 "The tests run one fixed list of seven keys through put, replace, get, delete.",
 [H+"internal/trie/rune_trie.go",H+"internal/trie/trie.go"],
 [("nodes pruned on delete only when they hold neither value nor children",H+"internal/trie/rune_trie.go:Delete")],
 [("children, value","trie nodes",H+"internal/trie/rune_trie.go")],
 ["Get","Put","Delete"])
prop("P17","Regenerating rules files: success means complete files, under any disk fault",
 "When the generator of the stripped rules files reports success, every rules source was read to its end and its output file holds exactly the stripped source, complete and in order. Any failure to open, read, create, write or close makes it report failure; run again once the disk works, it produces all the complete files, whatever an interrupted or crashed run left behind.",
 ["fault_sequences","crash_points"],"Every sequence of disk errors, short writes, full disks and crashes at any disk operation, followed by a fault-free run.",
 "The generator is excluded from the build and has no test at all.",
 [H+"languages/strip_comments.go",H+"languages/doc.go"],
 [("walk of the sources, line by line rewrite",H+"languages/strip_comments.go:strip, main")],
 [("languages/*.tex","files embedded in the library",H+"languages")],
 ["exit status of the generator","content of the generated files"])
prop("P18","Regenerating width tables: never a table from an incomplete download",
 "The generator of the rune-width tables rewrites the tables only when every property file was downloaded completely; a transport error, an error status or a download cut short at any point makes it report failure and leaves the previous tables as they were. When it reports success the tables hold exactly the ranges of the downloaded properties, and a run after the faults stop succeeds.",
 ["fault_sequences"],"Every sequence of connection errors, error statuses, bodies cut at any byte, short reads and disk errors, followed by a fault-free run.",
 "The generator is excluded from the build and has no test at all.",
 ["terminal/runes/build_tables.go","terminal/runes/runes_tables.go"],
 [("download, parse, format, then write","terminal/runes/build_tables.go:main")],
 [("runes_tables.go","tables compiled into the library","terminal/runes")],
 ["exit status of the generator","content of runes_tables.go"])
prop("P30","Hyphenation points are those of Liang's algorithm for every word",
 "For every word and every supported language, the hyphenation points are those Liang's algorithm prescribes for that language's rules and exceptions.",
 ["inputs"],"Every word.","Tests check a few dozen words.",
 [H+"hyphenator.go",H+"dictionary.go"],[("pattern merge",H+"hyphenator.go:BreakWord")])
prop("P31","Rune widths agree with Unicode 15 for every code point",
 "For every code point the width reported is the one derived from the Unicode 15.0 East Asian Width and emoji properties.",
 ["inputs"],"Every code point.","Tests check a few hundred code points.",
 ["terminal/runes/width.go","terminal/runes/runes_tables.go"],[("tables","terminal/runes/runes_tables.go")])
prop("P32","Punctuation and token splitting partition every text",
 "For every text, the parts returned are consecutive pieces of it that cover everything but separators that are not to be retained.",
 ["inputs"],"Every text.","Tests check a dozen strings.",
 ["wordbreak/punctuator/punctuator.go","wordbreak/tokenizer/tokenizer.go","terminal/runes/fields.go"],[("split loops","wordbreak/punctuator/punctuator.go:breakAtFunc")])
prop("P33","Chosen line breaks minimise the total demerits of the paragraph",
 "Among all admissible ways to break a paragraph, the line breaker picks one with the least total demerits as defined by Knuth and Plass.",
 ["inputs"],"Every paragraph.","Tests print lines; a TODO says to assert Knuth's break points.",
 ["linebreak/knuth_plass.go"],[("active list search","linebreak/knuth_plass.go:mainLoop")])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
