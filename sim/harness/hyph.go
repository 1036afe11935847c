package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/zsim/simrt"
	"golang.org/x/text/language"
)

// languages a caller may ask for, and the rules that are right for them.
var langFiles = map[string][]string{
	"":      {"ushyphmax.tex"},
	"en-US": {"ushyphmax.tex"},
	"en-GB": {"hyph-en-gb.tex"},
	"en":    {"hyph-en-gb.tex", "ushyphmax.tex"},
	"en-AU": {"hyph-en-gb.tex", "ushyphmax.tex"},
	"fr":    {"hyph-fr.tex"},
	"fr-FR": {"hyph-fr.tex"},
	"fr-CA": {"hyph-fr.tex"},
	"fr-CH": {"hyph-fr.tex"},
	"fr-BE": {"hyph-fr.tex"},
	"de":    {"hyph-de-1996.tex"},
	"de-DE": {"hyph-de-1996.tex"},
	"de-AT": {"hyph-de-1996.tex"},
	"de-CH": {"hyph-de-1996.tex"},
	"es":    {"hyph-es.tex"},
	"es-ES": {"hyph-es.tex"},
	"es-MX": {"hyph-es.tex"},
	"es-AR": {"hyph-es.tex"},
}

// other ways to ask for a language, less usual regions, and languages without rules of their own (which get some rules).
var moreLangs = []string{"es-419", "es-CO", "fr-LU", "fr-MC", "de-LI", "de-LU", "en-IN", "en-ZA", "en-CA", "en-NZ", "en-IE", "de-Latn-AT", "fr-Latn-CA",
	"de-u-co-phonebk", "EN-gb", "en_GB", "DE", "fr_ca", "de-1996", "en-US-posix", "en-Latn-US",
	"uk", "ja", "zh-Hant-TW", "pt-BR", "ca", "gl", "lb", "br", "und", "it", "nl", "gsw", "eu", "oc"}

func init() {
	for _, l := range moreLangs {
		switch {
		case l == "EN-gb" || l == "en_GB":
			langFiles[l] = langFiles["en-GB"]
		case l == "en-US-posix" || l == "en-Latn-US":
			langFiles[l] = langFiles["en-US"]
		default:
			langFiles[l] = ruleFiles
			if base := langFiles[strings.ToLower(l[:2])]; base != nil && (len(l) == 2 || l[2] == '-' || l[2] == '_') {
				langFiles[l] = base
			}
		}
	}
}

var (
	langNames = []string{"", "en-US", "en-GB", "en", "en-AU", "fr", "fr-FR", "fr-CA", "fr-CH", "fr-BE", "de", "de-DE", "de-AT", "de-CH", "es", "es-ES", "es-MX", "es-AR"}
	ruleFiles = []string{"hyph-de-1996.tex", "hyph-en-gb.tex", "hyph-es.tex", "hyph-fr.tex", "ushyphmax.tex"}
)

// hop is an operation on hyphenators.
type hop struct {
	Op   string `json:"op"` // new, break, load, supported
	H    int    `json:"h,omitempty"`
	Lang string `json:"lang,omitempty"`
	Tag  bool   `json:"tag,omitempty"` // by tag rather than by name
	hyphOpts
	Rot  int    `json:"rot,omitempty"` // order of the options
	Dup  bool   `json:"dup,omitempty"` // options given before with other values
	File string `json:"file,omitempty"`
	Word string `json:"word,omitempty"`
	Str  bool   `json:"str,omitempty"`
}

type hyphScn struct {
	Files  map[string]string `json:"files"` // nil: the real ones
	Tasks  [][]hop           `json:"tasks"`
	Faults []Fault           `json:"faults,omitempty"`
	Probe  []string          `json:"probe,omitempty"` // words to try on whole dictionaries
}

const hyphAlphabet = "abcdeé"

var realWords = strings.Fields("hyphenation example computer Algorithmus Donaudampfschifffahrt typesetting paragraphe développement élégamment gobernador presente associate project reciprocity table Wörterbuch straßenbahn développeur incomprehensibilities philanthropic record Concatenation universidad ferrocarril anticonstitutionnellement")

func genWord(r *Rand) string {
	n := 1 + r.Intn(9)
	if r.Chance(0.1) {
		n = 10 + r.Intn(14)
	}
	w := []rune(r.Word(hyphAlphabet, n))
	if r.Chance(0.2) {
		for i := range w {
			if r.Chance(0.4) {
				w[i] = []rune(strings.ToUpper(string(w[i])))[0]
			}
		}
	}
	if r.Chance(0.04) {
		// longer than any buffer
		w = []rune(r.Word(hyphAlphabet, r.PickInt(31, 32, 33, 63, 64, 65, 100, 127, 128, 130, 255, 256, 257, 300)+r.Intn(3)))
	}
	if r.Chance(0.05) {
		for i := 0; i < 1+len(w)/4; i++ {
			w[r.Intn(len(w))] = []rune(".'0179ßİΣﬁ漢\u0301😀zq")[r.Intn(15)]
		}
	}
	if r.Chance(0.05) {
		w[r.Intn(len(w))] = []rune("---‐\u00ad‑")[r.Intn(6)]
	}
	return string(w)
}

func genOpts(r *Rand) hyphOpts {
	var o hyphOpts
	if r.Chance(0.5) {
		o.MinLength = 1 + r.Intn(7)
	}
	if r.Chance(0.5) {
		o.MinLeft = 1 + r.Intn(4)
	}
	if r.Chance(0.5) {
		o.MinRight = 1 + r.Intn(4)
	}
	if r.Chance(0.1) {
		switch r.Intn(3) {
		case 0:
			o.MinLength = 8 + r.Intn(30)
		case 1:
			o.MinLeft = 5 + r.Intn(20)
		default:
			o.MinRight = 5 + r.Intn(20)
		}
	}
	return o
}

func genFiles(r *Rand) (map[string]string, []string) {
	files := map[string]string{}
	var words []string
	size := r.PickInt(2, 4, 8, 20, 60)
	for _, n := range ruleFiles {
		files[n] = genRules(r, hyphAlphabet, "TAG "+n, 1+r.Intn(size), r.Intn(1+size/2))
		rules := parseRules(files[n])
		for w := range rules.exceptions {
			words = append(words, w)
		}
		for w := range rules.patterns {
			if w = strings.Trim(w, "."); len([]rune(w)) >= 5 {
				words = append(words, w, "ab"+w+"ba") // words which a long pattern applies to
			}
		}
	}
	return files, words
}

func sortedPick(r *Rand, words []string) string {
	// independent of the order of words
	best, bh := "", uint64(0)
	salt := r.U64()
	for _, w := range words {
		h := salt
		for i := 0; i < len(w); i++ {
			h = (h ^ uint64(w[i])) * 1099511628211
		}
		if best == "" || h > bh || h == bh && w > best {
			best, bh = w, h
		}
	}
	return best
}

func genHyph(r *Rand, faults bool) *hyphScn {
	s := &hyphScn{}
	var exceptions []string
	isReal := r.Chance(0.02)
	if !isReal {
		s.Files, exceptions = genFiles(r)
	}
	nt := 1 + r.Intn(5)
	if r.Chance(0.1) {
		nt += r.Intn(6)
	}
	// few languages, so that tasks meet
	nl := 1 + r.Intn(3)
	var langs []string
	for i := 0; i < nl; i++ {
		langs = append(langs, r.Pick(langNames))
		if r.Chance(0.15) {
			langs[i] = r.Pick(moreLangs)
		}
	}
	if !isReal && r.Chance(0.15) {
		langs = langNames // all of them at once
	}
	many, fresh := 8, 0.3
	if !isReal && r.Chance(0.12) {
		// long histories
		many = r.PickInt(30, 100, 300)
		if faults {
			many = 30
		}
		if many > 30 {
			nt = 1 + r.Intn(3)
		}
		if r.Chance(0.5) {
			fresh = 0.6
		}
	}
	word := func() string {
		switch {
		case isReal:
			return r.Pick(realWords)
		case len(exceptions) > 0 && r.Chance(0.15):
			w := sortedPick(r, exceptions)
			if r.Chance(0.3) {
				w = strings.ToUpper(w)
			}
			return w
		}
		return genWord(r)
	}
	for t := 0; t < nt; t++ {
		var ops []hop
		slots := 0
		n := 1 + r.Intn(many)
		for i := 0; i < n; i++ {
			switch {
			case slots == 0 || r.Chance(fresh):
				if faults && r.Chance(0.3) {
					if r.Chance(0.2) {
						ops = append(ops, hop{Op: "supported"})
					} else {
						ops = append(ops, hop{Op: "load", File: langFiles[r.Pick(langs)][0]})
					}
					continue
				}
				ops = append(ops, hop{Op: "new", H: slots, Lang: r.Pick(langs), Tag: r.Chance(0.4), hyphOpts: genOpts(r)})
				if r.Chance(0.2) {
					o := &ops[len(ops)-1]
					o.Rot, o.Dup = r.Intn(4), r.Chance(0.5)
				}
				slots++
			default:
				ops = append(ops, hop{Op: "break", H: r.Intn(slots), Word: word(), Str: r.Chance(0.3)})
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	if faults {
		np := 12
		for i := 0; i < np; i++ {
			s.Probe = append(s.Probe, word())
		}
		nf := 1 + r.Intn(4)
		for i := 0; i < nf; i++ {
			f := Fault{Nth: 1 + r.Intn(3), Sticky: r.Chance(0.25)}
			if r.Chance(0.5) {
				f.Err = r.Intn(simrt.ErrKinds)
			}
			if r.Chance(0.85) {
				f.File = langFiles[r.Pick(langs)][0]
			} else {
				f.File = r.Pick(ruleFiles)
			}
			size := 400
			if !isReal {
				size = len(s.Files[f.File])
			} else {
				size = r.PickInt(100, 5000, 20000, 200000)
			}
			f.Kind = r.Pick([]string{"open", "read", "read", "read", "readn", "readn", "short", "zero", "eofn", "close", "dir"})
			switch f.Kind {
			case "read", "readn":
				f.At = r.Intn(size + 1)
				if r.Chance(0.15) {
					f.At = size
				}
			case "zero":
				f.At = r.Intn(size + 1)
			case "short":
				f.Chunk = r.PickInt(1, 2, 3, 7, 100)
				if isReal {
					f.Chunk = 100
				}
			case "dir":
				f.File = ""
			}
			s.Faults = append(s.Faults, f)
		}
		// short reads must not always come alone
		if r.Chance(0.3) {
			s.Faults = append(s.Faults, Fault{File: langFiles[r.Pick(langs)][0], Nth: 1, Sticky: true, Kind: "short", Chunk: r.PickInt(1, 2, 5, 64)})
			if isReal {
				s.Faults[len(s.Faults)-1].Chunk = 64
			}
		}
	}
	return s
}

var realRules map[string]*refDict

func rulesOf(files map[string]string) (map[string]string, map[string]*refDict) {
	if files == nil {
		files = realFiles()
		if realRules == nil {
			realRules = map[string]*refDict{}
			for n, f := range files {
				realRules[n] = parseRules(f)
			}
		}
		return files, realRules
	}
	rules := map[string]*refDict{}
	for n, f := range files {
		rules[n] = parseRules(f)
	}
	return files, rules
}

func (o hyphOpts) withDefaults() hyphOpts {
	if o.MinLength == 0 {
		o.MinLength = 4
	}
	if o.MinLeft == 0 {
		o.MinLeft = 2
	}
	if o.MinRight == 0 {
		o.MinRight = 2
	}
	return o
}

func (op hop) options() []hyphenator.Option {
	var opts []hyphenator.Option
	if op.MinLength != 0 {
		opts = append(opts, hyphenator.WithMinLength(op.MinLength))
	}
	if op.MinLeft != 0 {
		opts = append(opts, hyphenator.WithMinLeft(op.MinLeft))
	}
	if op.Lang != "" {
		if op.Tag {
			tag, err := language.Parse(op.Lang)
			if err != nil {
				Invalid(err.Error())
			}
			opts = append(opts, hyphenator.WithLanguageTag(tag))
		} else {
			opts = append(opts, hyphenator.WithLanguage(op.Lang))
		}
	}
	if op.MinRight != 0 {
		opts = append(opts, hyphenator.WithMinRight(op.MinRight))
	}
	if n := len(opts); n > 0 {
		opts = append(opts[op.Rot%n:n:n], opts[:op.Rot%n]...)
	}
	if op.Dup { // the last one counts
		var first []hyphenator.Option
		if op.MinLength != 0 {
			first = append(first, hyphenator.WithMinLength(op.MinLength+3))
		}
		if op.MinLeft != 0 {
			first = append(first, hyphenator.WithMinLeft(op.MinLeft+1))
		}
		if op.MinRight != 0 {
			first = append(first, hyphenator.WithMinRight(op.MinRight+1))
		}
		if op.Lang != "" {
			first = append(first, hyphenator.WithLanguage(map[bool]string{true: "es", false: "fr"}[strings.HasPrefix(op.Lang, "fr")]))
		}
		opts = append(first, opts...)
	}
	return opts
}

// liveHyph is a hyphenator in use and the rules it may legitimately hold.
type liveHyph struct {
	h     *hyphenator.Hyphenator
	cands []string
	opts  hyphOpts
	name  string
}

// check a word against the rules the hyphenator must have.
func (l *liveHyph) check(e *Env, rules map[string]*refDict, word string, str bool) {
	var got [][]rune
	in := []rune(word)
	if str {
		got = l.h.BreakWordString(word)
	} else {
		got = l.h.BreakWord(in)
	}
	var keep []string
	var want [][]rune
	for _, c := range l.cands {
		want = rules[c].breakWord([]rune(word), l.opts)
		if partsEq(got, want) {
			keep = append(keep, c)
		}
	}
	if len(keep) == 0 {
		e.Fail("wrong-breaks", "%s: BreakWord(%q) = %q, want %q (rules %v, options %+v)", l.name, word, showParts(got), showParts(want), l.cands, l.opts)
	}
	l.cands = keep
	e.Op(word)
}

func validHyph(s *hyphScn) {
	if s.Files != nil {
		for _, n := range ruleFiles {
			if _, ok := s.Files[n]; !ok {
				Invalid("missing file")
			}
		}
	}
	for _, t := range s.Tasks {
		for _, o := range t {
			switch o.Op {
			case "new":
				if langFiles[o.Lang] == nil {
					Invalid("language")
				}
				if o.Rot < 0 || o.MinLength < 0 || o.MinLeft < 0 || o.MinRight < 0 {
					Invalid("options")
				}
			case "break", "supported":
			case "load":
				if o.File == "" {
					Invalid("file")
				}
			default:
				Invalid("op")
			}
		}
	}
	if len(s.Tasks) > 60 {
		Invalid("tasks")
	}
}

const manySteps = int64(2e9)

// stepsFor bounds the work of rules of this size in this many operations.
func stepsFor(files map[string]string, ops int) int64 {
	size := 0
	for _, f := range files {
		size += len(f)
	}
	return 1e6 + int64(size+1000)*int64(ops+8)*1000
}

func countOps(tasks [][]hop) int {
	n := 0
	for _, t := range tasks {
		n += len(t)
	}
	return n
}

func execP01(e *Env, scn interface{}) {
	s := scn.(*hyphScn)
	validHyph(s)
	files, rules := rulesOf(s.Files)
	disk := newDisk(e, files, nil)
	simrt.Disk = disk
	simrt.ResetAll()
	var fns []func()
	ids := make([]map[string]string, len(s.Tasks)) // identifiers of the rules that each task got, per language
	for ti, ops := range s.Tasks {
		ti, ops := ti, ops
		ids[ti] = map[string]string{}
		fns = append(fns, func() {
			live := map[int]*liveHyph{}
			for _, op := range ops {
				switch op.Op {
				case "new":
					h := hyphenator.New(op.options()...)
					l := &liveHyph{h: h, cands: langFiles[op.Lang], opts: op.hyphOpts.withDefaults(), name: fmt.Sprintf("task %d, language %q", ti, op.Lang)}
					live[op.H] = l
					if h == nil || h.Dictionary == nil {
						e.Fail("no-rules", "%s: a new hyphenator has no dictionary", l.name)
					}
					if s.Files != nil {
						id := h.String()
						if was, ok := ids[ti][op.Lang]; ok && was != id {
							e.Fail("wrong-rules", "%s: dictionary is %q, it was %q", l.name, id, was)
						}
						ids[ti][op.Lang] = id
						ok := false
						for _, c := range l.cands {
							ok = ok || strings.Contains(id, "TAG "+c)
						}
						if !ok {
							e.Fail("wrong-rules", "%s: dictionary is %q, want one of %v", l.name, id, l.cands)
						}
					}
					e.Op("new")
				case "break":
					if l := live[op.H]; l != nil {
						l.check(e, rules, op.Word, op.Str)
					}
				}
			}
		})
	}
	e.Par(stepsFor(files, countOps(s.Tasks)), fns...)
	for ti := range ids {
		for _, l := range append(langNames[:len(langNames):len(langNames)], moreLangs...) {
			if id, other := ids[ti][l], ids[0][l]; id != "" && other != "" && id != other {
				e.Fail("wrong-rules", "language %q: task %d got %q, task 0 got %q", l, ti, id, other)
			}
		}
	}
	for i := 0; i < disk.n; i++ {
		if disk.complete[i] > 1 {
			e.Fail("read-twice", "rules file %s was read %d times", disk.names[i], disk.complete[i])
		}
		if disk.complete[i] == 1 {
			e.Probe("rules-read-once")
		}
	}
}

func execP04(e *Env, scn interface{}) {
	s := scn.(*hyphScn)
	validHyph(s)
	files, rules := rulesOf(s.Files)
	disk := newDisk(e, files, s.Faults)
	simrt.Disk = disk
	simrt.ResetAll()
	var fns []func()
	whole := func(d *hyphenator.Dictionary, file, what string) {
		l := &liveHyph{h: hyphenator.New(), cands: []string{file}, opts: hyphOpts{}.withDefaults(), name: what}
		if l.h == nil {
			return
		}
		l.h.Dictionary = d
		for _, w := range s.Probe {
			l.check(e, rules, w, false)
		}
	}
	for ti, ops := range s.Tasks {
		ti, ops := ti, ops
		fns = append(fns, func() {
			live := map[int]*liveHyph{}
			for _, op := range ops {
				start := simrt.Step()
				disk.clearTask()
				switch op.Op {
				case "supported":
					names, err := hyphenator.SupportedPatterns()
					if disk.taskHit() {
						if err == nil {
							e.Fail("swallowed", "task %d: SupportedPatterns hides an error of the storage and gives %q", ti, names)
						}
						e.Probe("list-error-reported")
						break
					}
					if err != nil && disk.dirFault < start {
						e.Fail("invented", "task %d: SupportedPatterns fails although the storage works: %v", ti, err)
					}
					if err == nil {
						checkNames(e, names, files)
					}
				case "load":
					d, err := hyphenator.LoadPatterns(op.File)
					hit := disk.taskHit()
					last := disk.lastFaultOf(op.File)
					switch {
					case err == nil && hit:
						e.Fail("swallowed", "task %d: LoadPatterns(%q) reports no error although opening or reading failed", ti, op.File)
					case err != nil && last < start && files[op.File] != "":
						e.Fail("invented", "task %d: LoadPatterns(%q) fails although the storage works: %v", ti, op.File, err)
					case err == nil && d == nil:
						e.Fail("no-rules", "task %d: LoadPatterns(%q) gives no dictionary and no error", ti, op.File)
					case err != nil:
						e.Probe("load-error-reported")
					}
					if d != nil && rules[op.File] != nil {
						whole(d, op.File, fmt.Sprintf("task %d: dictionary from LoadPatterns(%q) (error %v)", ti, op.File, err))
					}
					e.Op("load")
				case "new":
					known := disk.wasServed(langFiles[op.Lang])
					h := hyphenator.New(op.options()...)
					l := &liveHyph{h: h, cands: langFiles[op.Lang], opts: op.hyphOpts.withDefaults(), name: fmt.Sprintf("task %d, language %q", ti, op.Lang)}
					if h == nil || h.Dictionary == nil {
						if known {
							e.Fail("forgotten", "%s: a new hyphenator has no dictionary although the rules had been loaded before", l.name)
						}
						// only the storage may be the reason, during this very call
						ok := false
						for _, c := range l.cands {
							ok = ok || disk.lastFaultOf(c) >= start
						}
						if !ok {
							e.Fail("no-rules", "%s: a new hyphenator has no dictionary although nothing failed during the call", l.name)
						}
						e.Probe("new-without-rules")
						delete(live, op.H)
						break
					}
					disk.serve(l.cands)
					live[op.H] = l
					for _, w := range s.Probe {
						l.check(e, rules, w, false)
					}
				case "break":
					if l := live[op.H]; l != nil {
						l.check(e, rules, op.Word, op.Str)
					}
				}
			}
		})
	}
	limit := stepsFor(files, countOps(s.Tasks)*(2+len(s.Probe)))
	e.Par(limit, fns...)
	// the faults stop: everything works
	disk.off = true
	e.Seq(limit, func() {
		names, err := hyphenator.SupportedPatterns()
		if err != nil {
			e.Fail("not-recovered", "SupportedPatterns fails once the storage works again: %v", err)
		}
		checkNames(e, names, files)
		for _, lang := range []string{"en-US", "en-GB", "fr", "de", "es"} {
			file := langFiles[lang][0]
			if s.Files == nil && disk.opens[disk.index(file)] == 0 {
				continue // large files which nobody asked for
			}
			opens := disk.opens[disk.index(file)]
			h := hyphenator.New(hyphenator.WithLanguage(lang))
			if disk.wasServed(langFiles[lang]) {
				if disk.opens[disk.index(file)] > opens {
					e.Fail("forgotten", "language %q: the rules are read again, although they had been loaded before", lang)
				}
				e.Probe("rules-kept")
			}
			if h == nil || h.Dictionary == nil {
				e.Fail("not-recovered", "language %q has no rules once the storage works again", lang)
			}
			l := &liveHyph{h: h, cands: []string{file}, opts: hyphOpts{}.withDefaults(), name: fmt.Sprintf("after recovery, language %q", lang)}
			for _, w := range s.Probe {
				l.check(e, rules, w, false)
			}
			e.Probe("recovered")
		}
	})
}

func checkNames(e *Env, names []string, files map[string]string) {
	seen := map[string]bool{}
	for _, n := range names {
		seen[n] = true
	}
	for n := range files {
		if !seen[n] {
			e.Fail("wrong-list", "SupportedPatterns gives %q: %q is missing", names, n)
		}
	}
	if len(names) != len(files) {
		e.Fail("wrong-list", "SupportedPatterns gives %q, want %d files", names, len(files))
	}
}

func init() {
	props["P01"] = &Prop{
		Gen:   func(r *Rand) interface{} { return genHyph(r, false) },
		New:   func() interface{} { return &hyphScn{} },
		Exec:  execP01,
		Tasks: true,
	}
	props["P04"] = &Prop{
		Gen:   func(r *Rand) interface{} { return genHyph(r, true) },
		New:   func() interface{} { return &hyphScn{} },
		Exec:  execP04,
		Tasks: true,
	}
}
