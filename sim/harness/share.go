package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
	"github.com/fredbi/go-typeset/zsim/simrt"
)

// P02: shared splitters, shared texts.

type splitOp struct {
	Op  string `json:"op"` // hyph, hyphs, split, ishyph, punct, puncts, ispunct, tok, toks, fields, strip, strip1
	Obj int    `json:"obj,omitempty"`
	T   int    `json:"t"`
	// the part of the text that is used
	From int `json:"from,omitempty"`
	Len  int `json:"len"`
	// from a buffer of the task, which it fills again for the next text
	Own bool `json:"own,omitempty"`
	// fields: what the caller's function does when it is called for the n-th time
	Nth int `json:"nth,omitempty"`
	Do  int `json:"do,omitempty"` // 0: it panics; i: the operation i-1 of shareScn.Within
}

type shareScn struct {
	Files map[string]string `json:"files"`
	Hyphs []hop             `json:"hyphs"`
	Texts []string          `json:"texts"`
	Tasks [][]splitOp       `json:"tasks"`
	// operations within the functions given to others
	Within []splitOp `json:"within,omitempty"`
}

const sentinel = '\U000F1234'

// plain is the operation as a lone caller makes it.
func (op splitOp) plain() splitOp {
	op.Own, op.Nth, op.Do = false, 0, 0
	return op
}

// survives reports whether fn was left by the failure of a callback.
func survives(fn func()) (failed bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(callbackFailure); !ok {
				panic(p)
			}
			failed = true
		}
	}()
	fn()
	return false
}

// guarded is a text followed by spare capacity that nobody may touch.
type guarded struct {
	text []rune
	orig []rune
	full []rune
}

func newGuarded(s []rune) *guarded {
	const spare = 24
	full := make([]rune, len(s)+spare)
	copy(full, s)
	for i := len(s); i < len(full); i++ {
		full[i] = sentinel
	}
	return &guarded{text: full[:len(s)], orig: append([]rune{}, s...), full: full}
}

func (g *guarded) check(e *Env, what string) {
	if !runesEq(g.text, g.orig) {
		e.Fail("text-modified", "%s: the text %q became %q", what, string(g.orig), string(g.text))
	}
	for i := len(g.text); i < len(g.full); i++ {
		if g.full[i] != sentinel {
			e.Fail("text-modified", "%s: memory after the text %q was written (%q)", what, string(g.orig), g.full[i])
		}
	}
}

// ownBuffer is a buffer which its owner fills again and again.
type ownBuffer struct{ full []rune }

func (b *ownBuffer) fill(s []rune) *guarded {
	const spare = 24
	if len(b.full) < len(s)+spare {
		b.full = make([]rune, 2*len(s)+128)
	}
	copy(b.full, s)
	for i := len(s); i < len(b.full); i++ {
		b.full[i] = sentinel
	}
	return &guarded{text: b.full[:len(s)], orig: append([]rune{}, s...), full: b.full}
}

type splitters struct {
	hyphs []*hyphenator.Hyphenator
	punct *punctuator.Punctuator
	tok   *tokenizer.Tokenizer
}

func (s *shareScn) build() *splitters {
	o := &splitters{punct: punctuator.New(), tok: tokenizer.New()}
	for _, h := range s.Hyphs {
		o.hyphs = append(o.hyphs, hyphenator.New(h.options()...))
	}
	return o
}

func boolPart(b bool) [][]rune {
	if b {
		return [][]rune{[]rune("true")}
	}
	return [][]rune{[]rune("false")}
}

func (o *splitters) do(op splitOp, text []rune, within func()) [][]rune {
	from, n := op.From, op.Len
	if from > len(text) {
		from = len(text)
	}
	if n > len(text)-from {
		n = len(text) - from
	}
	t := text[from : from+n]
	switch op.Op {
	case "hyph":
		return o.hyphs[op.Obj].BreakWord(t)
	case "hyphs":
		return o.hyphs[op.Obj].BreakWordString(string(t))
	case "split":
		return hyphenator.SplitWord(t)
	case "ishyph":
		return boolPart(hyphenator.IsHyphen(t))
	case "punct":
		return o.punct.BreakWord(t)
	case "puncts":
		return o.punct.BreakWordString(string(t))
	case "ispunct":
		return boolPart(punctuator.IsPunctuation(t))
	case "tok":
		return o.tok.BreakWord(t)
	case "toks":
		return o.tok.BreakWordString(string(t))
	case "fields":
		return runes.FieldsFunc(t, func(r rune) bool {
			simrt.YH(-30)
			within()
			return r == 'a' || r == ' ' || unicode.IsPunct(r)
		})
	case "strip":
		var out [][]rune
		for _, s := range ansi.StripToken(t) {
			out = append(out, s.StartSequence, s.Text, s.StopSequence, s.Remainder)
		}
		return out
	case "strip1":
		s := ansi.StripANSIFromRunes(t)
		return [][]rune{s.StartSequence, s.Text, s.StopSequence, s.Remainder}
	}
	Invalid("op " + op.Op)
	return nil
}

var splitPieces = []string{
	"a", "b", "ab", "cde", "bead", "decade", "abcde", "É", "Cab", " ", "  ", "\t", "\u00a0", "\u2003", "\n", ",", ".", ";", "!", "|", "_", "\"", "(", ")", "…",
	"-", "--", "\u2010", "\u00ad", "\u30fb", "\x1b[31m", "\x1b[0m", "\x1b[m", "\x1b[38;5;120m", "\x1b[2K", "\x1b[4h", "\x1b[4l", "\x1b", "\x1b[", "\x1b[3", "[", "語", "e\u0301",
}

func genShare(r *Rand) interface{} {
	s := &shareScn{}
	s.Files, _ = genFiles(r)
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		s.Hyphs = append(s.Hyphs, hop{Op: "new", Lang: r.Pick(langNames), hyphOpts: genOpts(r)})
	}
	kind := r.Intn(3)
	nTexts := 1 + r.Intn(3)
	if r.Chance(0.15) {
		nTexts = 4 + r.Intn(20)
	}
	for i := 0; i < nTexts; i++ {
		if i > 0 && r.Chance(0.3) {
			// close to another text
			s.Texts = append(s.Texts, relatedText(r, s.Texts[r.Intn(i)]))
			continue
		}
		m := 1 + r.Intn(14)
		if r.Chance(0.05) {
			m = r.PickInt(30, 60, 64, 65, 128, 130, 200, 260, 500)
		}
		var b strings.Builder
		for k := 0; k < m; k++ {
			if kind == 0 {
				b.WriteString(r.Word(hyphAlphabet, 1+r.Intn(3)))
			} else {
				b.WriteString(r.Pick(splitPieces))
			}
		}
		s.Texts = append(s.Texts, b.String())
	}
	ops := []string{"hyph", "hyph", "hyph", "hyphs", "split", "ishyph", "punct", "punct", "puncts", "ispunct", "tok", "tok", "toks", "fields", "fields", "strip", "strip", "strip1"}
	if r.Chance(0.5) {
		// everybody does the same few things
		n := 1 + r.Intn(3)
		var few []string
		for i := 0; i < n; i++ {
			few = append(few, r.Pick(ops))
		}
		ops = few
	}
	own := []float64{0, 0, 0.3, 1}[r.Intn(4)]
	strange := false
	genOp := func() splitOp {
		op := splitOp{Op: r.Pick(ops), T: r.Intn(len(s.Texts)), Len: 1000, Obj: r.Intn(len(s.Hyphs))}
		if r.Chance(0.3) {
			op.From = r.Intn(10)
			op.Len = r.Intn(12)
		}
		op.Own = own > 0 && r.Chance(own)
		if op.Op == "fields" && strange && r.Chance(0.5) {
			op.Nth, op.Do = 1+r.Intn(8), r.Intn(1+len(s.Within))
		}
		return op
	}
	if strange = r.Chance(0.3); strange {
		strange = false
		var l []splitOp
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			op := genOp()
			op.Own = false
			l = append(l, op)
		}
		s.Within = l
		strange = true
	}
	most, nt := 8, 1+r.Intn(5)
	var fixed []splitOp
	if r.Chance(0.1) {
		// long histories of a few operations
		most = r.PickInt(40, 150, 300, 1200)
		if most > 150 {
			nt = 1 + r.Intn(2)
		}
		for i, n := 0, 1+r.Intn(30); i < n; i++ {
			fixed = append(fixed, genOp())
		}
	}
	work := int64(0) // kept to a bounded amount: what a word costs may grow with the square of its length
	for t := 0; t < nt; t++ {
		var l []splitOp
		for i, n := 0, 1+r.Intn(most); i < n; i++ {
			op := genOp
			if fixed != nil {
				op = func() splitOp { return fixed[r.Intn(len(fixed))] }
			}
			l = append(l, op())
			if work += s.square(l[i]); work > 2e7 {
				break
			}
		}
		s.Tasks = append(s.Tasks, l)
	}
	return s
}

// relatedText looks like another text to whoever does not look closely.
func relatedText(r *Rand, text string) string {
	t := []rune(text)
	if len(t) == 0 {
		return "a"
	}
	switch i := r.Intn(len(t)); r.Intn(9) {
	case 7, 8:
		return alias(r, text)
	case 0:
		return strings.ToUpper(text)
	case 1:
		return strings.ToLower(text)
	case 2:
		t[i] = []rune(hyphAlphabet)[r.Intn(6)]
	case 3:
		j := r.Intn(len(t))
		t[i], t[j] = t[j], t[i]
	case 4:
		return string(t[i:])
	case 5:
		return string(t[:i+1])
	default:
		return text + r.Pick(splitPieces)
	}
	return string(t)
}

// square of the length of the text of an operation, with that of what happens within.
func (s *shareScn) square(op splitOp) int64 {
	n := int64(len([]rune(s.Texts[op.T]))) + 20
	if op.Nth != 0 && op.Do > 0 {
		return n*n + s.square(s.Within[op.Do-1])
	}
	return n * n
}

func execP02(e *Env, scn interface{}) {
	s := scn.(*shareScn)
	for _, n := range ruleFiles {
		if _, ok := s.Files[n]; !ok {
			Invalid("missing file")
		}
	}
	for _, h := range s.Hyphs {
		if langFiles[h.Lang] == nil {
			Invalid("language")
		}
	}
	for _, op := range s.Within {
		if op.T < 0 || op.T >= len(s.Texts) || op.Obj < 0 || op.Obj >= len(s.Hyphs) || op.From < 0 || op.Len < 0 || op.Nth != 0 || op.Own {
			Invalid("within")
		}
	}
	total, squares := 0, int64(0)
	for _, l := range s.Tasks {
		for _, op := range l {
			if op.T < 0 || op.T >= len(s.Texts) || op.Obj < 0 || op.Obj >= len(s.Hyphs) || op.From < 0 || op.Len < 0 || op.Do < 0 || op.Do > len(s.Within) {
				Invalid("index")
			}
			total++
			if op.Nth != 0 {
				total++
			}
			squares += s.square(op)
		}
	}
	// what a lone caller gets, each time from a cold start and on a text of its own
	lone := map[splitOp][][]rune{}
	for _, l := range append([][]splitOp{s.Within}, s.Tasks...) {
		for _, op := range l {
			op = op.plain()
			if _, ok := lone[op]; ok {
				continue
			}
			simrt.Disk = newDisk(e, s.Files, nil)
			simrt.ResetAll()
			op := op
			e.Seq(stepsFor(s.Files, 40)+200*s.square(op), func() {
				lone[op] = copyParts(s.build().do(op, []rune(s.Texts[op.T]), func() {}))
			})
		}
	}
	simrt.Disk = newDisk(e, s.Files, nil)
	simrt.ResetAll()
	var shared *splitters
	e.Seq(stepsFor(s.Files, 40), func() { shared = s.build() })
	texts := make([]*guarded, len(s.Texts))
	for i, t := range s.Texts {
		texts[i] = newGuarded([]rune(t))
	}
	type handed struct {
		got, was [][]rune
		what     string
	}
	kept := make([][]handed, len(s.Tasks))
	var fns []func()
	for ti, ops := range s.Tasks {
		ti, ops := ti, ops
		fns = append(fns, func() {
			var buf ownBuffer
			for _, op := range ops {
				what := fmt.Sprintf("task %d: %s of %q[%d:+%d]", ti, op.Op, s.Texts[op.T], op.From, op.Len)
				text := texts[op.T]
				if op.Own {
					e.Probe("buffer-filled-again")
					text = buf.fill(text.orig)
				}
				calls := 0
				within := func() {
					if calls++; calls != op.Nth {
						return
					}
					if op.Do == 0 {
						e.Fired("callback-panic-fields")
						panic(callbackFailure{"fields"})
					}
					e.Probe("splitter-in-a-callback")
					in := s.Within[op.Do-1]
					if got, want := shared.do(in, texts[in.T].text, func() {}), lone[in]; !partsEq(got, want) {
						e.Fail("wrong-result", "%s, in whose callback %s of %q[%d:+%d] gives %q, a lone caller gets %q", what, in.Op, s.Texts[in.T], in.From, in.Len, showParts(got), showParts(want))
					}
				}
				var got [][]rune
				if survives(func() { got = shared.do(op, text.text, within) }) {
					text.check(e, what)
					e.Op("failed callback")
					continue
				}
				if want := lone[op.plain()]; !partsEq(got, want) {
					e.Fail("wrong-result", "%s gives %q, a lone caller gets %q", what, showParts(got), showParts(want))
				}
				if op.Own {
					text.check(e, what)
				} else {
					kept[ti] = append(kept[ti], handed{got, copyParts(got), what})
				}
				e.Op(op.Op)
			}
		})
	}
	e.Par(stepsFor(s.Files, 40+4*total)+200*squares, fns...)
	for _, l := range kept {
		for _, h := range l {
			if !partsEq(h.got, h.was) {
				e.Fail("result-modified", "the result of %s was %q and became %q", h.what, showParts(h.was), showParts(h.got))
			}
		}
	}
	for _, g := range texts {
		g.check(e, "at the end")
	}
}

// P03: widths.

type widthOp struct {
	Op    string `json:"op"` // width, widths, string, amb
	Opts  int    `json:"opts"`
	Runes []int  `json:"runes"` // in the pool
	Cut   [2]int `json:"cut"`   // bytes of a string that are missing at both ends
}

type widthScn struct {
	Warm  []widthOp   `json:"warm,omitempty"` // earlier calls by a lone caller
	Tasks [][]widthOp `json:"tasks"`
	Own   bool        `json:"own,omitempty"` // each task fills a buffer of its own again and again
	Any   []int32     `json:"any,omitempty"` // more runes, after those of the pool
}

var widthPool = func() []rune {
	p := []rune{0xFFFD, 'a', ' ', '-', 0, 7, 0x1F, 0x20, 0x7E, 0x7F, 0x9F, 0xA0, 0xA1, 0xAD, 0xB0, 0xB1, 0xF8, 0x2FF, 0x300, 0x301, 0x370, 0x391, 0x3B1, 0x410,
		0x4D0, 0x591, 0x70F, 0x1100, 0x115F, 0x1160, 0x180B, 0x180E, 0x200B, 0x200D, 0x200F, 0x2010, 0x2014, 0x2018, 0x2026, 0x2028, 0x202E, 0x206A, 0x20AC,
		0x2122, 0x2160, 0x2190, 0x231A, 0x2329, 0x23E9, 0x2460, 0x2500, 0x2588, 0x25A0, 0x25FD, 0x2600, 0x2614, 0x263A, 0x2648, 0x2693, 0x26A1, 0x26C4, 0x2705,
		0x2728, 0x274C, 0x2764, 0x27B0, 0x2B1B, 0x2B50, 0x2E3A, 0x2E3B, 0x2E80, 0x3000, 0x3001, 0x303E, 0x303F, 0x3041, 0x3099, 0x30A2, 0x3248, 0x4DC0, 0x4E00,
		0x9FFF, 0xA000, 0xAC00, 0xD7A3, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xF8FF, 0xF900, 0xFE00, 0xFE0F, 0xFE10, 0xFE30, 0xFEFF, 0xFF01, 0xFF60, 0xFF61,
		0xFFE0, 0xFFE6, 0xFFE8, 0xFFF9, 0xFFFC, 0xFFFE, 0xFFFF, 0x10000, 0x16FE0, 0x17000, 0x1B000, 0x1D300, 0x1F000, 0x1F004, 0x1F0CF, 0x1F100, 0x1F10A, 0x1F18E,
		0x1F1E6, 0x1F200, 0x1F300, 0x1F320, 0x1F321, 0x1F3FB, 0x1F441, 0x1F600, 0x1F680, 0x1F900, 0x1F9FF, 0x1FA70, 0x20000, 0x2FFFD, 0x30000, 0x3FFFD, 0xE0001,
		0xE0100, 0xF0000, 0x10FFFD, 0x10FFFE, 0x10FFFF, 0x110000, 0x110001, 0x7FFFFFFF, -1, -2, -0x80000000}
	r := NewRand(20240601)
	for i := 0; i < 1500; i++ {
		p = append(p, rune(r.Intn(0x10000)))
	}
	for i := 0; i < 600; i++ {
		p = append(p, rune(0x10000+r.Intn(0x20000)))
	}
	for i := 0; i < 300; i++ {
		p = append(p, rune(0x30000+r.Intn(0xE0000)))
	}
	for i := 0; i < 300; i++ {
		p = append(p, rune(0x1F000+r.Intn(0x1000)))
	}
	return p
}()

func widthOptions(i int) []runes.Option {
	switch i {
	case 1:
		return []runes.Option{runes.WithEastAsian(true)}
	case 2:
		return []runes.Option{runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(1)}
	case 3:
		return []runes.Option{runes.WithEastAsian(true), runes.WithSkipStrictEmojiNeutral(true)}
	case 4:
		return []runes.Option{runes.WithEastAsian(false)}
	case 5:
		return []runes.Option{runes.WithEastAsianAmbiguousWidth(3), runes.WithEastAsian(false)}
	case 6:
		return []runes.Option{runes.WithSkipStrictEmojiNeutral(true), runes.WithEastAsianAmbiguousWidth(1), runes.WithEastAsian(true)}
	case 7:
		return []runes.Option{runes.WithSkipStrictEmojiNeutral(true)}
	case 8:
		return []runes.Option{runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(5)}
	case 9:
		return []runes.Option{runes.WithEastAsianAmbiguousWidth(2), runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(0)}
	case 10:
		return []runes.Option{runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(260), runes.WithSkipStrictEmojiNeutral(true)}
	case 11:
		return []runes.Option{runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(3), runes.WithEastAsian(false)}
	}
	return nil
}

const (
	nWidthOpts   = 12
	specialRunes = 150 // the first ones of the pool are special
)

var loneWidth [nWidthOpts][]int

// widthBaseline is what a lone caller gets from a cold start: computed once per process, for each set of options.
func widthBaseline(opts int) []int {
	if loneWidth[opts] == nil {
		loneWidth[opts] = widthsAlone(opts, widthPool)
		relatedWidths(widthPool, loneWidth[opts], opts, func() []int { return widthBaseline(0) })
	}
	return loneWidth[opts]
}

var loneAmbiguous []bool

func loneAmb() []bool {
	if loneAmbiguous == nil {
		simrt.Fixed(func() {
			simrt.ResetAll()
			for _, r := range widthPool {
				loneAmbiguous = append(loneAmbiguous, runes.IsAmbiguous(r))
			}
		})
	}
	return loneAmbiguous
}

func widthsAlone(opts int, rs []rune) []int {
	out := make([]int, len(rs))
	simrt.Fixed(func() { // on a machine like any other
		simrt.ResetAll()
		for i, r := range rs {
			out[i] = runes.Width(r, widthOptions(opts)...)
		}
	})
	return out
}

// relatedWidths holds the widths with some options against those without any.
func relatedWidths(rs []rune, got []int, opts int, plain func() []int) {
	if opts == 0 {
		return
	}
	base := plain()
	simrt.ResetAll()
	for i, r := range rs {
		switch opts {
		case 4, 5, 7, 11: // not in East-Asian mode
			if got[i] != base[i] {
				env.Fail("options-without-effect", "%U: width %d with options %d (not in East-Asian mode), %d without", r, got[i], opts, base[i])
			}
		default:
			wide := 2
			switch opts {
			case 2, 6:
				wide = 1
			case 8:
				wide = 5
			case 9:
				wide = 0
			case 10:
				wide = 260
			}
			emoji := opts == 3 || opts == 6 || opts == 10
			if got[i] != base[i] && !(got[i] == wide && runes.IsAmbiguous(r)) && !(emoji && got[i] == 2) {
				env.Fail("east-asian", "%U (ambiguous %v): width %d with options %d (East-Asian mode), %d without", r, runes.IsAmbiguous(r), got[i], opts, base[i])
			}
		}
	}
}

func genWidthOp(r *Rand, opts []int, more int) widthOp {
	op := widthOp{Op: r.Pick([]string{"width", "width", "widths", "widths", "string", "amb"}), Opts: opts[r.Intn(len(opts))]}
	n := 1
	if op.Op == "widths" || op.Op == "string" {
		n = r.Intn(10)
		if r.Chance(0.03) {
			n = r.PickInt(16, 31, 64, 100, 257, 300)
			if r.Chance(0.2) {
				n = r.PickInt(1000, 1025, 4100, 5000, 9000)
			}
		}
	}
	if op.Op == "string" && r.Chance(0.3) {
		op.Cut = [2]int{r.Intn(4), r.Intn(4)}
	}
	for i := 0; i < n; i++ {
		if more > 0 && r.Chance(0.5) {
			op.Runes = append(op.Runes, len(widthPool)+r.Intn(more))
		} else if r.Chance(0.5) {
			op.Runes = append(op.Runes, r.Intn(specialRunes))
		} else {
			op.Runes = append(op.Runes, r.Intn(len(widthPool)))
		}
	}
	return op
}

func missing(cut [2]int) string {
	if cut == [2]int{} {
		return ""
	}

	return fmt.Sprintf(" (less %d bytes at its start and %d at its end)", cut[0], cut[1])
}

func genWidths(r *Rand) interface{} {
	s := &widthScn{}
	var opts []int
	asian := r.Chance(0.8) // does not need the table, whose construction is most of the cost
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		if asian {
			opts = append(opts, r.PickInt(1, 2, 3, 6, 8, 9, 10))
		} else {
			opts = append(opts, r.Intn(nWidthOpts))
		}
	}
	if r.Chance(0.15) {
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			first := int32(r.Intn(0x110000))
			if r.Chance(0.6) {
				first = int32(r.Intn(0x20000))
			}
			if r.Chance(0.3) {
				// agrees in its lowest bits with one that is measured often
				first = widthPool[r.Intn(specialRunes)] & 0xffff
				first += int32(r.Intn(17)) << 16
			}
			for j, m := int32(0), int32(r.PickInt(1, 2, 5, 16, 64)); j < m; j++ {
				s.Any = append(s.Any, first+j)
			}
		}
	}
	if r.Chance(0.4) {
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			s.Warm = append(s.Warm, genWidthOp(r, opts, len(s.Any)))
		}
	}
	s.Own = r.Chance(0.3)
	most := r.PickInt(3, 25, 25, 200) // most of the cost is the table that is built
	for t, nt := 0, 2+r.Intn(5); t < nt; t++ {
		var l []widthOp
		for i, n := 0, 1+r.Intn(most); i < n; i++ {
			l = append(l, genWidthOp(r, opts, len(s.Any)))
		}
		s.Tasks = append(s.Tasks, l)
	}
	return s
}

func execP03(e *Env, scn interface{}) {
	s := scn.(*widthScn)
	var base [nWidthOpts][]int
	pool := widthPool
	if len(s.Any) > 0 {
		pool = append(pool[:len(pool):len(pool)], s.Any...)
	}
	for _, l := range append([][]widthOp{s.Warm}, s.Tasks...) {
		for _, op := range l {
			if op.Opts < 0 || op.Opts >= nWidthOpts {
				Invalid("options")
			}
			for _, i := range op.Runes {
				if i < 0 || i >= len(pool) {
					Invalid("rune")
				}
			}
			if (op.Op == "width" || op.Op == "amb") && len(op.Runes) == 0 {
				Invalid("no rune")
			}
			base[op.Opts] = widthBaseline(op.Opts)
		}
	}
	if len(s.Any) > 0 {
		var plain []int
		for o := range base {
			if base[o] != nil {
				more := widthsAlone(o, s.Any)
				relatedWidths(s.Any, more, o, func() []int {
					if plain == nil {
						plain = widthsAlone(0, s.Any)
					}
					return plain
				})
				base[o] = append(base[o][:len(base[o]):len(base[o])], more...)
			}
		}
		e.Probe("any-runes")
	}
	simrt.ResetAll()
	amb := make([]bool, len(s.Any)+len(loneAmb()))
	copy(amb, loneAmb())
	for i, r := range s.Any {
		amb[len(widthPool)+i] = runes.IsAmbiguous(r)
	}
	simrt.ResetAll()
	one := func(who string, buf *[]rune, op widthOp) {
		text := (*buf)[:0]
		if !s.Own {
			text = nil
		}
		for _, i := range op.Runes {
			text = append(text, pool[i])
		}
		if s.Own {
			*buf = text
		}
		opts := widthOptions(op.Opts)
		var got, want int
		switch op.Op {
		case "width":
			got, want = runes.Width(text[0], opts...), base[op.Opts][op.Runes[0]]
		case "widths":
			got = runes.Widths(text, opts...)
			for _, i := range op.Runes {
				want += base[op.Opts][i]
			}
		case "string":
			str := string(text)
			if op.Cut[0] >= 0 && op.Cut[1] >= 0 && op.Cut[0]+op.Cut[1] <= len(str) {
				str = str[op.Cut[0] : len(str)-op.Cut[1]] // possibly within a rune
			}
			got = runes.StringWidth(str, opts...)
			width := map[rune]int{}
			for _, k := range op.Runes {
				width[pool[k]] = base[op.Opts][k]
			}
			width[0xFFFD] = base[op.Opts][0] // what invalid runes and bytes became
			for _, r := range str {
				want += width[r]
			}
		case "amb":
			if runes.IsAmbiguous(text[0]) {
				got = 1
			}
			if amb[op.Runes[0]] {
				want = 1
			}
		default:
			Invalid("op")
		}
		if got != want {
			e.Fail("wrong-width", "%s: %s of %U%s with options %d is %d, a lone caller gets %d", who, op.Op, text, missing(op.Cut), op.Opts, got, want)
		}
		e.Op(op.Op)
	}
	limit := 5e8 * int64(len(s.Tasks)+1)
	if len(s.Warm) > 0 {
		e.Seq(limit, func() {
			var buf []rune
			for _, op := range s.Warm {
				one("a lone caller", &buf, op)
			}
		})
	}
	var fns []func()
	for ti, ops := range s.Tasks {
		ti, ops := ti, ops
		fns = append(fns, func() {
			var buf []rune
			for _, op := range ops {
				one(fmt.Sprintf("task %d", ti), &buf, op)
			}
		})
	}
	e.Par(limit, fns...)
}

func init() {
	props["P02"] = &Prop{Gen: genShare, New: func() interface{} { return &shareScn{} }, Exec: execP02, Tasks: true}
	props["P03"] = &Prop{Gen: genWidths, New: func() interface{} { return &widthScn{} }, Exec: execP03, Tasks: true}
}
