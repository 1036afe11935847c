package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/zsim/simrt"
)

// lineOpts are the settings of a line breaker.
type lineOpts struct {
	Tol      float64 `json:"tol,omitempty"`   // 0: the default
	Scale    float64 `json:"scale,omitempty"` // 0: the default
	NoBreak  bool    `json:"noBreak,omitempty"`
	NoRender bool    `json:"noRender,omitempty"`
	Penalty  float64 `json:"penalty,omitempty"` // 0: the default
	Measure  string  `json:"measure,omitempty"` // "": the default, one, prop
	Hyph     string  `json:"hyph,omitempty"`    // "": the default, every, pairs, hash, whole, shared
	Punct    string  `json:"punct,omitempty"`   // "": the default, none, letters, shared
	Loose    int     `json:"loose,omitempty"`
	Rot      int     `json:"rot,omitempty"` // the order in which the options come
}

// para is a paragraph to be set.
type para struct {
	Tokens []string `json:"tokens"`
	Width  float64  `json:"width"`
	O      int      `json:"o,omitempty"`   // which line breaker
	Own    bool     `json:"own,omitempty"` // from a slice which the caller fills again with other tokens
	// a callback that fails during this paragraph
	Fail string `json:"fail,omitempty"` // measure, hyph, punct
	Nth  int    `json:"nth,omitempty"`
}

type lineScn struct {
	Rules  string     `json:"rules"`
	Opts   []lineOpts `json:"opts"`
	Paras  []para     `json:"paras"`
	Tasks  [][]lineOp `json:"tasks,omitempty"`
	Spread bool       `json:"spread,omitempty"`
	Steps  []repStep  `json:"steps,omitempty"`
}

// repStep is what happens before a paragraph is set again.
type repStep struct {
	Cold bool  `json:"cold,omitempty"` // a new process
	Set  []int `json:"set,omitempty"`  // other paragraphs set by other line breakers
}

// lineOp sets paragraphs with one line breaker.
type lineOp struct {
	O int   `json:"o"`
	P []int `json:"p"`
	// what a callback of the line breaker does meanwhile
	Nest *nested `json:"nest,omitempty"`
}

// nested is a paragraph set by another line breaker from within a callback.
type nested struct {
	Kind string `json:"kind"` // measure, hyph, punct
	Nth  int    `json:"nth"`
	O    int    `json:"o"`
	P    int    `json:"p"`
}

// hooks are what callbacks do besides their work.
type hooks struct {
	fail string
	nth  int
	n    int
	do   func() // instead of failing
}

type callbackFailure struct{ kind string }

func (h *hooks) hit(e *Env, kind string) {
	if h == nil || h.fail != kind {
		return
	}
	h.n++
	if h.n == h.nth && h.do != nil {
		h.do()
		return
	}
	if h.n == h.nth {
		e.Fired("callback-panic-" + kind)
		panic(callbackFailure{kind})
	}
}

func measureOf(kind string) func([]rune) float64 {
	switch kind {
	case "":
		return func(in []rune) float64 { return float64(runes.Widths(in)) }
	case "one":
		return func(in []rune) float64 { return float64(len(in)) }
	case "prop":
		return func(in []rune) float64 {
			n := 0
			for _, r := range in {
				switch r {
				case ' ', '-':
					n++
				default:
					n += int(r) % 4
				}
			}
			return float64(n)
		}
	}
	// fractions of a cell, spaces and hyphens that are not one cell wide; exact sums
	var space, hyphen float64
	var letter func(r rune) float64
	switch kind {
	case "points":
		space, hyphen, letter = 3, 4, func(r rune) float64 { return 3 + float64(r%5) }
	case "halves":
		space, hyphen, letter = 0.5, 0.25, func(r rune) float64 { return float64(r%8) / 4 }
	case "twice":
		space, hyphen, letter = 2, 2, func(rune) float64 { return 2 }
	case "fine":
		// a very small unit: widths have many digits
		space, hyphen, letter = 218453, 218454, func(r rune) float64 { return 300000 + float64(r%7)*21845 }
	default:
		Invalid("measure " + kind)
	}
	return func(in []rune) float64 {
		n := 0.0
		for _, r := range in {
			switch r {
			case ' ':
				n += space
			case '-':
				n += hyphen
			default:
				n += letter(r)
			}
		}
		return n
	}
}

func hyphOf(kind string) func([]rune) [][]rune {
	cutAt := func(cut func(w []rune, i int) bool) func([]rune) [][]rune {
		return func(w []rune) [][]rune {
			var out [][]rune
			from := 0
			for i := 1; i < len(w); i++ {
				if cut(w, i) {
					out = append(out, w[from:i])
					from = i
				}
			}
			return append(out, w[from:])
		}
	}
	switch kind {
	case "every":
		return cutAt(func([]rune, int) bool { return true })
	case "pairs":
		return cutAt(func(_ []rune, i int) bool { return i%2 == 0 })
	case "hash":
		return cutAt(func(w []rune, i int) bool { return (int(w[i-1])*7+int(w[i])*3+i)%3 == 0 })
	case "whole":
		return cutAt(func([]rune, int) bool { return false })
	}
	Invalid("hyphenator " + kind)
	return nil
}

func punctOf(kind string) func([]rune) [][]rune {
	switch kind {
	case "none":
		return func(w []rune) [][]rune {
			if len(w) == 0 {
				return nil
			}
			return [][]rune{w}
		}
	case "letters":
		return func(w []rune) [][]rune {
			var out [][]rune
			from := 0
			for i, r := range w {
				if r == 'e' || r == ',' {
					if i > from {
						out = append(out, w[from:i])
					}
					out = append(out, w[i:i+1])
					from = i + 1
				}
			}
			if from < len(w) {
				out = append(out, w[from:])
			}
			return out
		}
	}
	Invalid("punctuator " + kind)
	return nil
}

// sharedParts are objects used by several line breakers.
type sharedParts struct {
	h *hyphenator.Hyphenator
	p *punctuator.Punctuator
}

func newShared() *sharedParts {
	return &sharedParts{h: hyphenator.New(hyphenator.WithMinLength(3)), p: punctuator.New()}
}

func (o lineOpts) build(e *Env, h *hooks, sh *sharedParts) *linebreak.LineBreaker {
	var opts []linebreak.Option
	if o.Tol != 0 {
		opts = append(opts, linebreak.WithTolerance(o.Tol))
	}
	if o.Scale != 0 {
		opts = append(opts, linebreak.WithScaleFactor(o.Scale))
	}
	if o.Measure != "" || h != nil {
		m := measureOf(o.Measure)
		opts = append(opts, linebreak.WithMeasurer(func(in []rune) float64 {
			simrt.YH(-40)
			h.hit(e, "measure")
			return m(in)
		}))
	}
	switch o.Hyph {
	case "":
	case "shared":
		opts = append(opts, linebreak.WithHyphenator(sh.h.BreakWord))
	default:
		f := hyphOf(o.Hyph)
		opts = append(opts, linebreak.WithHyphenator(func(w []rune) [][]rune {
			simrt.YH(-41)
			h.hit(e, "hyph")
			return f(w)
		}))
	}
	switch o.Punct {
	case "":
	case "shared":
		opts = append(opts, linebreak.WithPunctuator(sh.p.BreakWord))
	default:
		f := punctOf(o.Punct)
		opts = append(opts, linebreak.WithPunctuator(func(w []rune) [][]rune {
			simrt.YH(-42)
			h.hit(e, "punct")
			return f(w)
		}))
	}
	if o.NoBreak && o.Hyph == "" {
		opts = append(opts, linebreak.WithWordBreak(false))
	}
	if o.NoRender {
		opts = append(opts, linebreak.WithRenderHyphens(false))
	}
	if o.Penalty != 0 {
		opts = append(opts, linebreak.WithHyphenPenalty(o.Penalty))
	}
	if o.Loose != 0 {
		opts = append(opts, linebreak.WithLooseness(o.Loose))
	}
	if n := len(opts); n > 0 && o.Rot > 0 {
		opts = append(opts[o.Rot%n:], opts[:o.Rot%n]...)
	}
	if o.NoBreak && o.Hyph != "" {
		opts = append(opts, linebreak.WithWordBreak(false)) // WithHyphenator implies WithWordBreak(true)
	}
	return linebreak.New(opts...)
}

func (o lineOpts) String() string {
	return fmt.Sprintf("tolerance %g, scale %g, no word break %v, hyphens hidden %v, penalty %g, measure %q, hyphenator %q, punctuator %q (0, \"\": default)",
		o.Tol, o.Scale, o.NoBreak, o.NoRender, o.Penalty, o.Measure, o.Hyph, o.Punct)
}

// outcome of setting a paragraph.
type outcome struct {
	lines []string
	err   string
}

func (o outcome) key() string { return o.err + "\x00" + strings.Join(o.lines, "\n") }

func (o outcome) String() string {
	if o.err != "" {
		return "refusal (" + o.err + ")"
	}
	return fmt.Sprintf("%q", o.lines)
}

// ownTokens is a slice of tokens which the caller fills again and again.
type ownTokens struct{ full []string }

func (b *ownTokens) fill(e *Env, p para) para {
	if p.Own {
		e.Probe("slice-filled-again")
		if len(b.full) < len(p.Tokens) {
			b.full = make([]string, 2*len(p.Tokens)+16)
		}
		copy(b.full, p.Tokens)
		p.Tokens = b.full[:len(p.Tokens)]
	}
	return p
}

func set(e *Env, l *linebreak.LineBreaker, p para) outcome {
	lines, err := l.LeftAlignUniform(p.Tokens, p.Width)
	if err != nil {
		if err != linebreak.ErrCannotBeSet {
			e.Fail("other-error", "setting %q to %g gives the error %v", p.Tokens, p.Width, err)
		}
		if len(lines) > 0 {
			e.Fail("lines-and-error", "setting %q to %g gives lines %q and an error", p.Tokens, p.Width, lines)
		}
		e.Probe("refused")
		e.Op("refused")
		return outcome{err: err.Error()}
	}
	if len(lines) > 1 {
		e.Probe("several-lines")
	}
	e.Op(strings.Join(lines, "\n"))
	return outcome{lines: lines}
}

// linesLimit is polynomial in the size of the paragraph.
func linesLimit(s *lineScn, p para, o lineOpts) int64 {
	n := int64(20)
	for _, t := range p.Tokens {
		n += int64(len([]rune(t))) + 3
	}
	limit := 1e6 + 4000*n*n + 2000*int64(len(s.Rules)+100)
	if o.Measure == "" {
		limit += 2e9 // the table of widths
	}
	return limit
}

const wordLetters = "abcdeé"

// genTokens draws words, without escape sequences.
func genTokens(r *Rand, n int) []string {
	punct := r.Chance(0.6)
	hyphens := r.Chance(0.5)
	wide := r.Chance(0.3)
	maxLen := r.PickInt(3, 6, 10, 16)
	if n < 20 && r.Chance(0.03) {
		maxLen = r.PickInt(40, 80, 140, 300)
	}
	letters := wordLetters
	if r.Chance(0.12) {
		letters = r.Pick([]string{"語漢字", "😀漢", "a", "ab-", "e\u0301", "\u0301\u200b", "ABcDÉ", "0123456789", "a.", "\u200d\ufe0fa😀", "a\u00ad\ufeff\ufffd", "\x00a\x7f\u0600", "\ue000\uffff\U000e0001\U0010ffff", "%\\\"'&<>$#"})
	}
	var out []string
	again := 0.0
	if r.Chance(0.3) {
		again = 0.3
	}
	for i := 0; i < n; i++ {
		if i > 0 && r.Chance(again) {
			out = append(out, relate(r, out[r.Intn(i)])) // much like an earlier one
			continue
		}
		var b strings.Builder
		m := 1 + r.Intn(maxLen)
		turn := m
		if maxLen >= 16 && r.Chance(0.15) {
			turn = r.Intn(m) // the rest of the word is of another kind
		}
		for k := 0; k < m; k++ {
			switch {
			case k >= turn:
				b.WriteRune(r.Rune("語漢😀語漢\u0301"))
			case punct && r.Chance(0.12):
				b.WriteRune(r.Rune(",.;!/(|_"))
			case hyphens && r.Chance(0.08):
				b.WriteRune(r.Rune("--\u2010\u00ad"))
			case wide && r.Chance(0.2):
				b.WriteRune(r.Rune("語漢\u0301\u200b😀"))
			default:
				b.WriteRune(r.Rune(letters))
			}
		}
		out = append(out, b.String())
	}
	return out
}

// relate makes a word much like another one, or the same.
func relate(r *Rand, w string) string {
	rs := []rune(w)
	k := r.Intn(len(rs))
	switch r.Intn(9) {
	case 8:
		return alias(r, w)
	case 0:
		return strings.ToUpper(w)
	case 1:
		rs[k] = unicode.ToUpper(rs[k])
	case 2:
		rs[k] = r.Rune(wordLetters)
	case 3:
		rs[k] = r.Rune("語漢x")
	case 4:
		return w + r.Word(wordLetters, 1)
	case 5:
		if k > 0 {
			rs = rs[:k]
		}
	case 6:
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
	}
	return string(rs)
}

// alias replaces runes by others which agree with them in their lowest bits.
func alias(r *Rand, text string) string {
	d := rune(r.PickInt(0x80, 0x100, 0x100, 0x400, 0x1000, 0x10000, 0x10000, 0x10000, 0x100000))
	rs := []rune(text)
	some := []float64{0.2, 1}[r.Intn(2)]
	for i, c := range rs {
		if !r.Chance(some) {
			continue
		}
		if c ^= d; c <= unicode.MaxRune && (c < 0xd800 || c > 0xdfff) && c != 0x1b && c != 0x9b {
			rs[i] = c
		}
	}
	return string(rs)
}

// relateAll makes a paragraph much like another one (without escape sequences).
func relateAll(r *Rand, tokens []string) []string {
	if r.Chance(0.3) {
		return rearrange(r, tokens)
	}
	out := append([]string{}, tokens...)
	for i := range out {
		if !r.Chance(0.3) {
			continue
		}
		if strings.Contains(out[i], "\x1b") {
			out[i] = relateAttributed(r, out[i])
		} else {
			out[i] = relate(r, out[i])
		}
	}
	return out
}

// rearrange makes a paragraph of the same letters, or of the same words but for a few.
func rearrange(r *Rand, tokens []string) []string {
	if len(tokens) == 0 {
		return tokens
	}
	attributed := strings.Contains(strings.Join(tokens, ""), "\x1b")
	var out []string
	switch k := r.Intn(6); {
	case k > 2 || attributed:
		// the spaces elsewhere
		p := []float64{0.1, 0.5, 1}[r.Intn(3)]
		for i, t := range tokens {
			rs := []rune(t)
			switch {
			case i > 0 && r.Chance(p):
				out[len(out)-1] += t
			case len(rs) > 1 && !strings.Contains(t, "\x1b") && r.Chance(p):
				at := 1 + r.Intn(len(rs)-1)
				out = append(out, string(rs[:at]), string(rs[at:]))
			default:
				out = append(out, t)
			}
		}
	case k == 0:
		out = append(out, tokens...)
		i, j := r.Intn(len(out)), r.Intn(len(out))
		out[i], out[j] = out[j], out[i]
	case k == 1:
		out = append(append(out, tokens...), tokens[r.Intn(len(tokens))])
	default:
		at := r.Intn(len(tokens))
		out = append(append(out, tokens[:at]...), tokens[at+1:]...)
		if len(out) == 0 {
			out = append(out, tokens...)
		}
	}
	return out
}

// relateAttributed changes a text or a start sequence of a token.
func relateAttributed(r *Rand, token string) string {
	els, ok := parseSeqs(token)
	if !ok {
		return token
	}
	k := r.Intn(len(els))
	switch x := &els[k]; {
	case !x.seq:
		x.s = relate(r, x.s)
	case isStart(x.s) && x.s[len(x.s)-1] == 'm':
		if pair := drawPair(r); strings.HasSuffix(pair[0], "m") {
			x.s = pair[0]
		}
	}
	out := ""
	for _, x := range els {
		out += x.s
	}
	return out
}

func genLineOpts(r *Rand) lineOpts {
	var o lineOpts
	if r.Chance(0.7) {
		o.Tol = []float64{0.3, 1, 2, 3, 5, 8.6, 12, 50, 1000, 9999, 10000, 20000, 1e9}[r.Intn(13)]
	}
	if r.Chance(0.3) {
		o.Scale = float64(1 + r.Intn(5))
		if r.Chance(0.2) {
			o.Scale = float64(r.PickInt(8, 10, 16, 50, 100, 1000, 65536))
		}
		if r.Chance(0.3) {
			o.Scale += []float64{0.1, 0.25, 0.5, 0.75, -0.9, -0.5, -0.6}[r.Intn(7)]
		}
	}
	o.NoBreak = r.Chance(0.15)
	o.NoRender = r.Chance(0.25)
	if r.Chance(0.3) {
		o.Penalty = []float64{1, 50, 300, 9999, 10000, 20000, -50, -500, -2000, -9999, -10000}[r.Intn(11)]
	}
	o.Measure = r.Pick([]string{"one", "one", "one", "prop", "prop", "", "", "points", "halves", "twice"})
	o.Hyph = r.Pick([]string{"", "", "every", "pairs", "hash", "hash", "whole", "shared"})
	o.Punct = r.Pick([]string{"", "", "", "none", "letters", "shared"})
	if r.Chance(0.05) {
		o.Loose = r.Intn(5) - 2
	}
	if r.Chance(0.3) {
		o.Rot = r.Intn(8)
	}
	if r.Chance(0.06) {
		o.Measure = "fine"
		switch r.Intn(3) {
		case 0:
			o.Scale = 1.0 / 65536
		case 1:
			o.Tol = 1e9
		}
	}
	return o
}

// fit makes some widths (all of them, for measures of a very small unit) those of a few tokens, or a little more or less.
func (s *lineScn) fit(r *Rand) {
	for i := range s.Paras {
		p := &s.Paras[i]
		kind := s.Opts[p.O].Measure
		if kind != "fine" && !r.Chance(0.15) || len(p.Tokens) == 0 || r.Chance(0.1) {
			continue
		}
		if kind == "" {
			kind = "one" // do not measure with the code under test
		}
		from := r.Intn(len(p.Tokens))
		to := from + 1 + r.Intn(3)
		if to > len(p.Tokens) {
			to = len(p.Tokens)
		}
		_, text, _ := shown(strings.Join(p.Tokens[from:to], " "))
		rs := []rune(text)
		if r.Chance(0.3) {
			rs = append(rs[:r.Intn(len(rs)+1)], '-')
		}
		p.Width = measureOf(kind)(rs) + []float64{0, 0, 0, -1, 1, -0.25, -0.5, 0.25}[r.Intn(8)]
	}
}

func genWidth(r *Rand) float64 {
	w := float64(1 + r.Intn(24))
	switch {
	case r.Chance(0.05):
		w = float64(r.PickInt(0, 40, 80, 100, 150, 200, 300, 4000, 10000, 100000, 1000000000))
	case r.Chance(0.02):
		w = -float64(r.Intn(5))
	case r.Chance(0.15):
		w += []float64{0.25, 0.5, 0.75}[r.Intn(3)]
	}
	return w
}

func genSize(r *Rand) int {
	switch {
	case r.Chance(0.004):
		return r.PickInt(100, 128, 130, 200, 256, 260, 300)
	case r.Chance(0.03):
		return 20 + r.Intn(60)
	case r.Chance(0.3):
		return 6 + r.Intn(14)
	}
	return 1 + r.Intn(6)
}

func lineRules(r *Rand) string {
	return genRules(r, wordLetters, "TAG "+ruleFiles[4], 1+r.Intn(20), r.Intn(5))
}

func genPlain(r *Rand) *lineScn {
	s := &lineScn{Rules: lineRules(r)}
	s.Opts = []lineOpts{genLineOpts(r)}
	s.Paras = []para{{Tokens: genTokens(r, genSize(r)), Width: genWidth(r)}}
	if r.Chance(0.15) {
		s.reward(r)
	}
	return s
}

// reward makes breaking words better than not breaking them, in a paragraph so large that hardly any of its lines is bad.
func (s *lineScn) reward(r *Rand) {
	o := &s.Opts[0]
	o.NoBreak = false
	o.Scale = []float64{0, 0.1, 0.25, 0.4, 0.5, 0.9, 1.1, 1.5}[r.Intn(8)]
	o.Penalty = []float64{-10, -50, -50, -500}[r.Intn(4)]
	o.Hyph = r.Pick([]string{"every", "pairs", "pairs", "hash", "shared"})
	s.Paras[0] = para{Tokens: genTokens(r, 10+r.Intn(15)), Width: float64(5 + r.Intn(20))}
}

// tame keeps paragraphs from taking too long: the work grows with their size times their width.
func (p *para) tame() {
	n := 0.0
	for _, t := range p.Tokens {
		n += float64(len([]rune(t))) + 1
	}
	if n*math.Min(n, p.Width) > 1e5 {
		p.Width = float64(1 + int(p.Width)%24)
	}
}

// tameAll keeps a history from taking too long: overfull break points stay active, so that work grows with the square of the size.
func tameAll(paras []para, budget float64) {
	for i := range paras {
		p := &paras[i]
		p.tame()
		if strings.ContainsRune(strings.Join(p.Tokens, ""), '\x1b') {
			continue // do not cut sequences
		}
		var kept []string
		n := 0.0
		for _, t := range p.Tokens {
			rs := []rune(t)
			room := math.Sqrt(math.Max(budget, 1e4)) - n - 1
			if room < 1 {
				break
			}
			if float64(len(rs)) > room {
				t = string(rs[:int(room)])
			}
			kept = append(kept, t)
			n += float64(len([]rune(t))) + 1
		}
		if len(kept) > 0 {
			p.Tokens = kept
		}
		budget -= n * n
	}
}

// genHistory makes more paragraphs for the same line breaker, some abandoned midway, possibly next to a second one.
func genHistory(r *Rand, s *lineScn, tokens func() []string) *lineScn {
	if r.Chance(0.5) {
		s.fit(r)
		tameAll(s.Paras, 2e6)
		return s
	}
	s.Spread = r.Chance(0.3)
	if r.Chance(0.35) {
		o := genLineOpts(r)
		if r.Chance(0.5) {
			// as the first one, but for its measure
			m := o.Measure
			o = s.Opts[0]
			o.Measure = m
		}
		s.Opts = append(s.Opts, o)
	}
	n := 1 + r.Intn(3)
	if r.Chance(0.03) && len(s.Paras[0].Tokens) < 20 {
		n = 15 + r.Intn(60) // a long life
	}
	own := r.Chance(0.3)
	for i := 0; i < n; i++ {
		p := para{Width: genWidth(r), Tokens: s.Paras[r.Intn(len(s.Paras))].Tokens}
		switch r.Intn(10) {
		case 0, 1, 2, 3, 4:
			p.Tokens = tokens()
		case 5, 6:
			k := r.Intn(len(s.Paras))
			p.Tokens = relateAll(r, s.Paras[k].Tokens)
			if r.Chance(0.5) {
				p.Width = s.Paras[k].Width
			}
		}
		p.O = r.Intn(len(s.Opts))
		if r.Chance(0.3) {
			p.Fail = r.Pick([]string{"measure", "measure", "hyph", "punct"})
			p.Nth = 1 + r.Intn(8)
		}
		p.Own = own && r.Chance(0.8)
		s.Paras = append(s.Paras, p)
	}
	s.fit(r)
	tameAll(s.Paras, 2e6)
	last := len(s.Paras) - 1
	k := r.Intn(len(s.Paras))
	s.Paras[k], s.Paras[last] = s.Paras[last], s.Paras[k]
	return s
}

// each sets all the paragraphs with their line breakers (and at the same time with others), and checks what was set.
func (s *lineScn) each(e *Env, check func(o lineOpts, p para, before []string, got outcome)) {
	s.disk(e)
	coldButWidths()
	limit := int64(0)
	faults := false
	for _, p := range s.Paras {
		limit += 2 * linesLimit(s, p, s.Opts[p.O])
		faults = faults || p.Fail != ""
	}
	task := func() {
		var h *hooks
		if faults {
			h = &hooks{}
		}
		var buf ownTokens
		lbs := make([]*linebreak.LineBreaker, len(s.Opts))
		for _, p := range s.Paras {
			o := s.Opts[p.O]
			if h != nil {
				h.fail = ""
			}
			if lbs[p.O] == nil {
				lbs[p.O] = o.build(e, h, newShared())
			}
			l := lbs[p.O]
			if h != nil {
				h.fail, h.nth, h.n = p.Fail, p.Nth, 0
			}
			p = buf.fill(e, p)
			before := append([]string{}, p.Tokens...)
			var got outcome
			if r := Catch(func() { got = set(e, l, p) }); r != nil {
				if _, ok := r.(callbackFailure); !ok {
					panic(r)
				}
				continue
			}
			if h != nil {
				h.fail = ""
			}
			check(o, p, before, got)
		}
	}
	tasks := []func(){task}
	if s.Spread {
		tasks = append(tasks, task)
	}
	e.Par(limit, tasks...)
}

func (s *lineScn) validate() {
	for _, p := range s.Paras {
		for _, t := range p.Tokens {
			if t == "" || strings.ContainsAny(t, " \t\n") {
				Invalid("token")
			}
		}
		if math.IsNaN(p.Width) {
			Invalid("width")
		}
		if p.O < 0 || p.O >= len(s.Opts) {
			Invalid("line breaker")
		}
	}
	for _, o := range s.Opts {
		if o.Scale < 0 || o.Scale > 0 && o.Scale < 1e-6 || o.Tol < 0 {
			Invalid("options")
		}
		if o.Measure != "" {
			measureOf(o.Measure)
		}
		if o.Hyph != "" && o.Hyph != "shared" {
			hyphOf(o.Hyph)
		}
		if o.Punct != "" && o.Punct != "shared" {
			punctOf(o.Punct)
		}
	}
	for _, l := range s.Tasks {
		for _, op := range l {
			if op.O < 0 || op.O >= len(s.Opts) {
				Invalid("index")
			}
			for _, i := range op.P {
				if i < 0 || i >= len(s.Paras) {
					Invalid("index")
				}
			}
			if n := op.Nest; n != nil && (n.O < 0 || n.O >= len(s.Opts) || n.P < 0 || n.P >= len(s.Paras) || n.Kind != "measure" && n.Kind != "hyph" && n.Kind != "punct") {
				Invalid("nested")
			}
		}
	}
	if len(s.Tasks) > 40 {
		Invalid("tasks")
	}
}

func (s *lineScn) disk(e *Env) {
	files := map[string]string{}
	for _, n := range ruleFiles {
		files[n] = s.Rules
	}
	simrt.Disk = newDisk(e, files, nil)
}

var warmed bool

const runesPkg = "terminal/runes"

// coldButWidths is a cold start, except for the table of rune widths (built once per process, at its start).
func coldButWidths() {
	if !warmed {
		simrt.ResetAll()
		runes.Widths([]rune("a"))
		warmed = true
	}
	simrt.ResetExcept(runesPkg)
}

// one runs fn as a lone task.
func (s *lineScn) alone(e *Env, p para, o lineOpts, fn func()) {
	e.Seq(linesLimit(s, p, o), fn)
}

// ---- P09

func genP09(r *Rand) interface{} {
	s := genPlain(r)
	if r.Chance(0.3) {
		s.Paras[0].Tokens = genAttrTokens(r, len(s.Paras[0].Tokens))
	}
	// meanwhile, other paragraphs are set by other line breakers
	for i, n := 0, r.Intn(3); i < n; i++ {
		o := s.Opts[0]
		switch r.Intn(3) {
		case 0:
			o = genLineOpts(r)
		case 1:
			o.Measure = r.Pick([]string{"one", "prop", ""})
		}
		s.Opts = append(s.Opts, o)
		p := para{Width: genWidth(r), Tokens: s.Paras[0].Tokens, O: len(s.Opts) - 1}
		switch r.Intn(4) {
		case 0:
			p.Tokens = genTokens(r, genSize(r))
		case 1, 2:
			p.Tokens = relateAll(r, p.Tokens)
		}
		s.Paras = append(s.Paras, p)
	}
	s.fit(r)
	tameAll(s.Paras, 5e5)
	for i, n := 0, 2+r.Intn(5); i < n; i++ {
		st := repStep{Cold: r.Chance(0.3)}
		for k := 1; k < len(s.Paras); k++ {
			if r.Chance(0.3) {
				st.Set = append(st.Set, k)
			}
		}
		s.Steps = append(s.Steps, st)
	}
	return s
}

func execP09(e *Env, scn interface{}) {
	s := scn.(*lineScn)
	s.validate()
	if len(s.Paras) == 0 || s.Paras[0].O != 0 || len(s.Steps) > 50 {
		Invalid("shape")
	}
	o, p := s.Opts[0], s.Paras[0]
	s.disk(e)
	coldButWidths()
	simrt.Permuting(false) // the first time in the order of keys, then in any order
	var first outcome
	s.alone(e, p, o, func() { first = set(e, o.build(e, nil, newShared()), p) })
	simrt.Permuting(true)
	var after []string
	for _, st := range s.Steps {
		if st.Cold {
			coldButWidths()
			after = []string{"the start of another process"}
			e.Probe("another-process")
		}
		for _, i := range st.Set {
			if i <= 0 || i >= len(s.Paras) {
				Invalid("index")
			}
			q := s.Paras[i]
			s.alone(e, q, s.Opts[q.O], func() { set(e, s.Opts[q.O].build(e, nil, newShared()), q) })
			after = append(after, fmt.Sprintf("%q being set by another line breaker", q.Tokens))
		}
		var got outcome
		s.alone(e, p, o, func() { got = set(e, o.build(e, nil, newShared()), p) })
		if got.key() != first.key() {
			e.Fail("not-repeatable", "setting %q to %g (%s) gives %v, then, after %s, with internal tables walked in another order and at another time, %v",
				p.Tokens, p.Width, o, first, strings.Join(append([]string{"nothing else"}, after...), ", "), got)
		}
	}
}

// ---- P10

const (
	noBreak   = iota
	freeBreak // after a punctuation mark or a visible hyphen
	softBreak // at a hyphenation point
)

// points tells where a token may be broken: before its i-th rune.
func (o lineOpts) points(token []rune, sh *sharedParts) []int {
	pts := make([]int, len(token)+1)
	punct := sh.p.BreakWord
	if o.Punct != "" && o.Punct != "shared" {
		punct = punctOf(o.Punct)
	}
	hyph := hyphenator.New(hyphenator.WithMinLength(4)).BreakWord
	switch o.Hyph {
	case "":
	case "shared":
		hyph = sh.h.BreakWord
	default:
		hyph = hyphOf(o.Hyph)
	}
	at := 0
	for _, part := range punct(token) {
		if punctuator.IsPunctuation(part) {
			at += len(part)
			pts[at] = freeBreak
			continue
		}
		if o.NoBreak {
			at += len(part)
			continue
		}
		for _, w := range hyphenator.SplitWord(part) {
			if hyphenator.IsHyphen(w) {
				at += len(w)
				pts[at] = freeBreak
				continue
			}
			parts := hyph(w)
			for i, x := range parts {
				at += len(x)
				if i < len(parts)-1 {
					pts[at] = softBreak
				}
			}
		}
	}
	return pts
}

// keepsText tells what is wrong with the lines, if anything.
func keepsText(tokens []string, lines []string, pts [][]int, render bool) string {
	toks := make([][]rune, len(tokens))
	for i, t := range tokens {
		toks[i] = []rune(t)
	}
	type pos struct{ i, j int }
	states := map[pos]bool{{0, 0}: true}
	for ln, line := range lines {
		rs := []rune(line)
		next := map[pos]bool{}
		why := ""
		// consume reads text from a position; it returns the position reached, if the text is right
		consume := func(p pos, text []rune) (pos, bool) {
			if len(text) == 0 {
				return p, false
			}
			for k, c := range text {
				if p.i >= len(toks) {
					return p, false
				}
				if p.j == len(toks[p.i]) {
					if c != ' ' || k == len(text)-1 || k == 0 {
						return p, false
					}
					p = pos{p.i + 1, 0}
					continue
				}
				if toks[p.i][p.j] != c {
					return p, false
				}
				p.j++
			}
			return p, true
		}
		for st := range states {
			if p, ok := consume(st, rs); ok {
				switch {
				case p.j == 0:
					why = "ends with a space"
				case p.j == len(toks[p.i]):
					next[pos{p.i + 1, 0}] = true
				case pts[p.i][p.j] == freeBreak:
					next[p] = true
				case pts[p.i][p.j] == softBreak && !render:
					next[p] = true
				case pts[p.i][p.j] == softBreak:
					why = "stops at a hyphenation point without a hyphen"
				default:
					why = "stops inside a word where it may not be broken"
				}
			} else if why == "" {
				why = "does not continue the text"
			}
			if n := len(rs); n > 1 && rs[n-1] == '-' {
				if p, ok := consume(st, rs[:n-1]); ok && p.j > 0 && p.j < len(toks[p.i]) && pts[p.i][p.j] == softBreak && render {
					next[p] = true
				} else if ok && why == "does not continue the text" {
					why = "ends with a hyphen that does not belong there"
				}
			}
		}
		if len(next) == 0 {
			return fmt.Sprintf("line %d %q %s", ln+1, line, why)
		}
		states = next
	}
	if !states[pos{len(toks), 0}] {
		return "the end of the text is missing"
	}
	return ""
}

func execP10(e *Env, scn interface{}) {
	s := scn.(*lineScn)
	s.validate()
	for _, p := range s.Paras {
		if len(p.Tokens) == 0 {
			Invalid("no tokens")
		}
		for _, t := range p.Tokens {
			if _, _, ok := shown(t); !ok {
				Invalid("sequences")
			}
		}
	}
	s.each(e, func(o lineOpts, p para, before []string, got outcome) { checkText(e, o, p, before, got) })
}

// shown is the text of a token or a line without its sequences: in pieces and as a whole.
func shown(s string) (texts []string, all string, ok bool) {
	if !strings.ContainsRune(s, 0x1b) {
		return []string{s}, s, true
	}
	els, ok := parseSeqs(s)
	for _, x := range els {
		if !x.seq {
			texts = append(texts, x.s)
			all += x.s
		}
	}
	return texts, all, ok
}

// textPoints are the places where a token may be broken: those of its pieces between sequences, and those of the whole.
func (o lineOpts) textPoints(token string, sh *sharedParts) []int {
	texts, all, _ := shown(token)
	pts := o.points([]rune(all), sh)
	if len(texts) > 1 {
		at := 0
		for _, t := range texts {
			for i, k := range o.points([]rune(t), sh) {
				if k == freeBreak || k == softBreak && pts[at+i] == 0 {
					pts[at+i] = k
				}
			}
			at += len([]rune(t))
		}
	}
	return pts
}

func checkText(e *Env, o lineOpts, p para, before []string, got outcome) {
	what := fmt.Sprintf("setting %q to %g (%s) gives %v", before, p.Width, o, got)
	for i := range before {
		if before[i] != p.Tokens[i] {
			e.Fail("tokens-modified", "%s and alters the tokens: %q", what, p.Tokens)
		}
	}
	if got.err != "" {
		// a paragraph that fits on one line can always be set
		m := measureOf(o.Measure)
		total, widest := float64(len(p.Tokens)-1)*m([]rune{' '}), 0.0
		for _, t := range p.Tokens {
			_, text, _ := shown(t)
			w := m([]rune(text))
			total += w
			widest = math.Max(widest, w)
		}
		scale := o.Scale
		if scale == 0 {
			scale = 1
		}
		if total <= p.Width && scale == math.Trunc(scale) && o.Penalty >= 0 {
			e.Fail("refused", "%s although it fits on one line", what)
		}
		// nor can one be refused whose words each fit, when any loose line will do
		if widest <= p.Width && o.Tol >= 10000 && p.Width*scale <= 50000 && scale == math.Trunc(scale) && o.Penalty >= 0 {
			e.Fail("refused-words", "%s although each word fits on a line, and lines may be as loose as needed", what)
		}
		return
	}
	sh := newShared()
	var pts [][]int
	var tokens, lines []string
	for _, t := range p.Tokens {
		texts, text, _ := shown(t)
		if len(texts) == 0 {
			return // no words: only refusals are judged
		}
		tokens = append(tokens, text)
		pts = append(pts, o.textPoints(t, sh))
	}
	for _, l := range got.lines {
		_, text, ok := shown(l)
		if !ok {
			e.Fail("text", "%s: line %q has a sequence that is not in the text", what, l)
		}
		if text != l {
			e.Probe("line-with-attributes")
		}
		lines = append(lines, text)
	}
	if why := keepsText(tokens, lines, pts, !o.NoRender); why != "" {
		e.Fail("text", "%s: %s", what, why)
	}
	for _, l := range lines {
		if strings.HasSuffix(l, "-") {
			e.Probe("line-ends-with-hyphen")
		}
	}
}

// ---- P11

func genP11(r *Rand) interface{} {
	s := genPlain(r)
	if r.Chance(0.3) {
		s.Paras[0].Tokens = genAttrTokens(r, len(s.Paras[0].Tokens))
	}
	return genHistory(r, s, func() []string {
		if r.Chance(0.3) {
			return genAttrTokens(r, genSize(r))
		}
		return genTokens(r, genSize(r))
	})
}

func execP11(e *Env, scn interface{}) {
	s := scn.(*lineScn)
	s.validate()
	for _, p := range s.Paras {
		for _, t := range p.Tokens {
			if _, ok := parseSeqs(t); !ok {
				Invalid("sequences")
			}
		}
	}
	s.each(e, func(o lineOpts, p para, _ []string, got outcome) {
		m := measureOf(o.Measure)
		for _, l := range got.lines {
			els, _ := parseSeqs(l)
			var text []rune
			for _, x := range els {
				if !x.seq {
					text = append(text, []rune(x.s)...)
				}
			}
			if w := m(text); w > p.Width+1e-6 {
				e.Fail("overfull", "setting %q to %g (%s) gives %v: line %q is %g wide", p.Tokens, p.Width, o, got, l, w)
			} else if w > p.Width-2 {
				e.Probe("full-line")
			}
		}
	})
}

// ---- P12

func genP12(r *Rand) interface{} {
	s := &lineScn{Rules: lineRules(r)}
	s.Opts = []lineOpts{genLineOpts(r)}
	n := 2 + r.Intn(6)
	if r.Chance(0.03) {
		n = 15 + r.Intn(60) // a long life
	}
	own := r.Chance(0.3)
	for i := 0; i < n; i++ {
		p := para{Width: genWidth(r)}
		if r.Chance(0.6) {
			p.Tokens = genAnyAttrTokens(r, genSize(r))
		} else {
			p.Tokens = genTokens(r, genSize(r))
		}
		if r.Chance(0.1) {
			p.Tokens = nil
		}
		if i > 0 && (r.Chance(0.25) || own && r.Chance(0.5)) {
			k := r.Intn(i)
			p.Tokens = s.Paras[k].Tokens // again
			if r.Chance(0.5) {
				p.Width = s.Paras[k].Width
			}
			if r.Chance(0.5) {
				p.Tokens = relateAll(r, p.Tokens)
			}
		}
		if r.Chance(0.35) {
			p.Fail = r.Pick([]string{"measure", "measure", "hyph", "punct"})
			p.Nth = 1 + r.Intn(8)
		}
		p.Own = own && r.Chance(0.8)
		s.Paras = append(s.Paras, p)
	}
	s.fit(r)
	return s
}

func execP12(e *Env, scn interface{}) {
	s := scn.(*lineScn)
	s.validate()
	if len(s.Opts) != 1 {
		Invalid("shape")
	}
	o := s.Opts[0]
	s.disk(e)
	simrt.Permuting(false)
	// what a new line breaker gives
	var want []outcome
	for _, p := range s.Paras {
		p := p
		coldButWidths()
		var got outcome
		s.alone(e, p, o, func() { got = set(e, o.build(e, &hooks{}, newShared()), p) })
		want = append(want, got)
	}
	coldButWidths()
	h := &hooks{}
	var l *linebreak.LineBreaker
	s.alone(e, para{}, o, func() { l = o.build(e, h, newShared()) })
	var kept [][]string
	var history []string
	var buf ownTokens
	for i, p := range s.Paras {
		p, i := buf.fill(e, p), i
		h.fail, h.nth, h.n = p.Fail, p.Nth, 0
		var got outcome
		abandoned := false
		s.alone(e, p, o, func() {
			if r := Catch(func() { got = set(e, l, p) }); r != nil {
				if _, ok := r.(callbackFailure); !ok {
					panic(r)
				}
				abandoned = true
			}
		})
		if abandoned {
			history = append(history, fmt.Sprintf("%q abandoned", p.Tokens))
			kept = append(kept, nil)
			continue
		}
		if got.key() != want[i].key() {
			e.Fail("trace", "after %s, setting %q to %g (%s) gives %v; a new line breaker gives %v", strings.Join(history, ", then "), p.Tokens, p.Width, o, got, want[i])
		}
		history = append(history, fmt.Sprintf("%q set (%d lines)", p.Tokens, len(got.lines)))
		kept = append(kept, got.lines)
	}
	// what was handed out stays
	for i, lines := range kept {
		if lines != nil && strings.Join(lines, "\n") != strings.Join(want[i].lines, "\n") {
			e.Fail("result-modified", "lines of paragraph %d became %q, were %q", i, lines, want[i].lines)
		}
	}
}

// ---- P13

func genP13(r *Rand) interface{} {
	s := &lineScn{Rules: lineRules(r)}
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		o := genLineOpts(r)
		if o.Measure == "" {
			o.Measure = "one"
		}
		if r.Chance(0.5) {
			o.Hyph = r.Pick([]string{"", "shared"})
		}
		s.Opts = append(s.Opts, o)
	}
	if r.Chance(0.02) {
		s.Opts[0].Measure = ""
	}
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		p := para{Width: genWidth(r), Tokens: genTokens(r, 1+r.Intn(6))}
		if r.Chance(0.5) {
			p.Tokens = genAttrTokens(r, 1+r.Intn(6))
		}
		if i > 0 && r.Chance(0.3) {
			k := r.Intn(i)
			p.Tokens = relateAll(r, s.Paras[k].Tokens)
			if r.Chance(0.5) {
				p.Width = s.Paras[k].Width
			}
		}
		s.Paras = append(s.Paras, p)
	}
	s.fit(r)
	many := 2
	if r.Chance(0.05) {
		many = 20
	}
	nest := 0.0
	if r.Chance(0.3) {
		nest = 0.5
	}
	for t, nt := 0, 2+r.Intn(4); t < nt; t++ {
		var l []lineOp
		for i, n := 0, 1+r.Intn(many); i < n; i++ {
			op := lineOp{O: r.Intn(len(s.Opts))}
			for k, m := 0, 1+r.Intn(2); k < m; k++ {
				op.P = append(op.P, r.Intn(len(s.Paras)))
			}
			if r.Chance(nest) {
				op.Nest = &nested{Kind: r.Pick([]string{"measure", "measure", "hyph", "punct"}), Nth: 1 + r.Intn(12), O: r.Intn(len(s.Opts)), P: r.Intn(len(s.Paras))}
			}
			l = append(l, op)
		}
		s.Tasks = append(s.Tasks, l)
	}
	return s
}

func execP13(e *Env, scn interface{}) {
	s := scn.(*lineScn)
	s.validate()
	simrt.Permuting(false)
	lone := map[[2]int]outcome{}
	limit := int64(0)
	widths := false
	shared := false
	for _, l := range s.Tasks {
		for _, op := range l {
			pairs := [][2]int{}
			for _, i := range op.P {
				pairs = append(pairs, [2]int{op.O, i})
			}
			if op.Nest != nil {
				pairs = append(pairs, [2]int{op.Nest.O, op.Nest.P})
			}
			for _, k := range pairs {
				o, p := s.Opts[k[0]], s.Paras[k[1]]
				limit += linesLimit(s, p, o)
				widths = widths || o.Measure == ""
				shared = shared || o.Hyph == "shared" || o.Punct == "shared"
				if _, ok := lone[k]; ok {
					continue
				}
				s.disk(e)
				coldButWidths()
				var got outcome
				s.alone(e, p, o, func() { got = set(e, o.build(e, nil, newShared()), p) })
				lone[k] = got
			}
		}
	}
	s.disk(e)
	if widths {
		simrt.ResetAll()
		e.Probe("cold-width-table")
	} else {
		coldButWidths()
	}
	var sh *sharedParts
	if shared {
		e.Seq(linesLimit(s, para{}, lineOpts{}), func() { sh = newShared() })
		e.Probe("shared-splitters")
	}
	var fns []func()
	for ti, l := range s.Tasks {
		ti, l := ti, l
		fns = append(fns, func() {
			check := func(lb *linebreak.LineBreaker, o, i int, within string) {
				got := set(e, lb, s.Paras[i])
				if want := lone[[2]int{o, i}]; got.key() != want.key() {
					e.Fail("not-alone", "task %d%s: setting %q to %g (%s) gives %v, alone %v", ti, within, s.Paras[i].Tokens, s.Paras[i].Width, s.Opts[o], got, want)
				}
			}
			for _, op := range l {
				var h *hooks
				if n := op.Nest; n != nil {
					h = &hooks{fail: n.Kind, nth: n.Nth, do: func() {
						e.Probe("line-breaker-in-a-callback")
						check(s.Opts[n.O].build(e, nil, sh), n.O, n.P, ", in a callback")
					}}
				}
				lb := s.Opts[op.O].build(e, h, sh)
				for _, i := range op.P {
					check(lb, op.O, i, "")
				}
			}
		})
	}
	e.Par(limit+1e6, fns...)
}

// ---- P14

// el is a piece of a token: some text or an escape sequence.
type el struct {
	s   string
	seq bool
}

// parseSeqs cuts a text; it reports false if a sequence is not one of those this harness draws.
func parseSeqs(s string) ([]el, bool) {
	var out []el
	for len(s) > 0 {
		i := strings.IndexByte(s, 0x1b)
		if i != 0 {
			if i < 0 {
				i = len(s)
			}
			out = append(out, el{s: s[:i]})
			s = s[i:]
			continue
		}
		k := 2
		for k < len(s) && (s[k] >= '0' && s[k] <= '9' || s[k] == ';' || s[k] == ':') {
			k++
		}
		if len(s) < 3 || s[1] != '[' || k >= len(s) || !strings.ContainsRune("mhlsu", rune(s[k])) {
			return out, false
		}
		out = append(out, el{s: s[:k+1], seq: true})
		s = s[k+1:]
	}
	return out, true
}

// terminal is a model of what a terminal does with these sequences.
type terminal struct {
	sgr   string
	modes map[string]bool
}

func (t *terminal) apply(seq string) {
	body, last := seq[2:len(seq)-1], seq[len(seq)-1]
	if t.modes == nil {
		t.modes = map[string]bool{}
	}
	switch last {
	case 'm':
		if strings.Trim(body, "0;:") == "" {
			t.sgr = ""
		} else {
			t.sgr += seq
		}
	case 'h':
		t.modes["h"+body] = true
	case 'l':
		delete(t.modes, "h"+body)
	case 's':
		t.modes["s"+body] = true
	case 'u':
		delete(t.modes, "s"+body)
	}
}

func (t *terminal) state() string {
	out := t.sgr
	var modes []string
	for m := range t.modes {
		modes = append(modes, m)
	}
	sort.Strings(modes)
	for _, m := range modes {
		out += "<" + m + ">"
	}
	return out
}

func isStart(seq string) bool {
	switch seq[len(seq)-1] {
	case 'h', 's':
		return true
	case 'm':
		return strings.Trim(seq[2:len(seq)-1], "0;:") != ""
	}
	return false
}

var attrPairs = [][2]string{
	{"\x1b[31m", "\x1b[0m"}, {"\x1b[1m", "\x1b[m"}, {"\x1b[38;5;120m", "\x1b[0m"}, {"\x1b[38;2;10;200;3m", "\x1b[00m"}, {"\x1b[4;31m", "\x1b[0m"},
	{"\x1b[4h", "\x1b[4l"}, {"\x1b[20h", "\x1b[20l"}, {"\x1b[s", "\x1b[u"}, {"\x1b[7s", "\x1b[7u"}, {"\x1b[105m", "\x1b[0m"},
}

// drawPair draws a start sequence and what stops it.
func drawPair(r *Rand) [2]string {
	if r.Chance(0.6) {
		return attrPairs[r.Intn(len(attrPairs))]
	}
	number := func(lo, hi int) string { return fmt.Sprint(lo + r.Intn(hi-lo)) }
	switch r.Intn(6) {
	case 0:
		body := number(0, r.PickInt(10, 100, 1000))
		if r.Chance(0.3) {
			body += ";" + number(0, 100)
		}
		if r.Chance(0.5) {
			return [2]string{"\x1b[" + body + "h", "\x1b[" + body + "l"}
		}
		return [2]string{"\x1b[" + body + "s", "\x1b[" + body + "u"}
	case 1:
		sep := r.Pick([]string{";", ";", ":"})
		body := r.Pick([]string{"38", "48", "58"}) + sep
		if r.Chance(0.5) {
			body += "5" + sep + number(0, 256)
		} else {
			body += "2" + sep + number(0, 256) + sep + number(0, 256) + sep + number(0, 256)
		}
		return [2]string{"\x1b[" + r.Pick([]string{"", "", "0;", "1;"}) + body + "m", "\x1b[" + r.Pick(resets) + "m"}
	}
	// a reset may come first: it changes nothing where nothing is on
	body := r.Pick([]string{"", "", "", "0;", "0;", "00;", ";", "0;0;"})
	for i, n := 0, 1+r.Intn(r.PickInt(2, 3, 8, 20)); i < n; i++ {
		if i > 0 {
			body += r.Pick([]string{";", ";", ";", ":"})
		}
		body += r.Pick([]string{"", "", "0"}) + number(1, 100)
	}
	return [2]string{"\x1b[" + body + "m", "\x1b[" + r.Pick(resets) + "m"}
}

var resets = []string{"0", "0", "", "00", "000", "0;0", ";"}

// stops tells if a stop sequence stops what a start sequence started.
func stops(start, stop string) bool {
	n, m := len(start)-1, len(stop)-1
	switch start[n] {
	case 'm':
		return stop[m] == 'm'
	case 'h':
		return stop[m] == 'l' && start[:n] == stop[:m]
	default:
		return stop[m] == 'u' && start[:n] == stop[:m]
	}
}

// genAttrTokens draws words with un-nested start and stop sequences, at any place.
func genAttrTokens(r *Rand, n int) []string {
	pSeq := []float64{0.05, 0.15, 0.4}[r.Intn(3)]
	strays := r.Chance(0.3)
	punct := r.Chance(0.5)
	wide := r.Chance(0.2)
	hyphens := r.Chance(0.3)
	maxLen := 10
	if n < 6 && r.Chance(0.01) {
		// tokens of hundreds of pieces
		maxLen, pSeq = r.PickInt(60, 100, 150), 0.6
	}
	stop := ""
	var out []string
	seq := func(b *strings.Builder) {
		for r.Chance(pSeq) {
			switch {
			case stop != "":
				b.WriteString(stop)
				stop = ""
			case strays && r.Chance(0.3):
				b.WriteString(drawPair(r)[1])
			default:
				pair := drawPair(r)
				b.WriteString(pair[0])
				stop = pair[1]
			}
		}
	}
	for i := 0; i < n; i++ {
		var b strings.Builder
		seq(&b)
		m := r.Intn(maxLen)
		for k := 0; k < m; k++ {
			switch {
			case punct && r.Chance(0.12):
				b.WriteRune(r.Rune(",.;!/"))
			case wide && r.Chance(0.2):
				b.WriteRune(r.Rune("語漢😀"))
			case hyphens && r.Chance(0.15):
				b.WriteRune(r.Rune("---\u2010\u00ad\u30fb"))
			default:
				b.WriteRune(r.Rune(wordLetters))
			}
			seq(&b)
		}
		if b.Len() == 0 {
			b.WriteRune('a')
		}
		out = append(out, b.String())
	}
	if stop != "" {
		if r.Chance(0.5) {
			out[len(out)-1] += stop
		} else {
			out = append(out, stop)
		}
	}
	return out
}

// genAnyAttrTokens also leaves contexts open, nests them, and so on.
func genAnyAttrTokens(r *Rand, n int) []string {
	if r.Chance(0.5) {
		return genAttrTokens(r, n)
	}
	out := genTokens(r, n)
	for i := range out {
		for r.Chance(0.3) {
			rs := []rune(out[i])
			k := r.Intn(len(rs) + 1)
			q := drawPair(r)[r.Intn(2)]
			out[i] = string(rs[:k]) + q + string(rs[k:])
		}
	}
	return out
}

func genP14(r *Rand) interface{} {
	s := &lineScn{Rules: lineRules(r)}
	o := genLineOpts(r)
	s.Opts = []lineOpts{o}
	s.Paras = []para{{Tokens: genAttrTokens(r, genSize(r)), Width: genWidth(r)}}
	if r.Chance(0.1) {
		s.reward(r)
		s.Paras[0].Tokens = genAttrTokens(r, len(s.Paras[0].Tokens))
	}
	return genHistory(r, s, func() []string { return genAttrTokens(r, genSize(r)) })
}

type cell struct {
	r     rune
	state string
}

func execP14(e *Env, scn interface{}) {
	s := scn.(*lineScn)
	s.validate()
	for _, p := range s.Paras {
		inputCells(p)
	}
	s.each(e, func(o lineOpts, p para, _ []string, got outcome) { checkCells(e, o, p, got) })
}

// inputCells is what a terminal shows for the tokens, and their sequences.
func inputCells(p para) (cells []cell, seqs []string) {
	in := &terminal{}
	open := ""
	for _, t := range p.Tokens {
		els, ok := parseSeqs(t)
		if !ok {
			Invalid("sequences")
		}
		for _, x := range els {
			if !x.seq {
				for _, r := range x.s {
					cells = append(cells, cell{r, in.state()})
				}
				continue
			}
			if isStart(x.s) {
				if open != "" {
					Invalid("nested")
				}
				open = x.s
			} else if open != "" {
				if !stops(open, x.s) {
					Invalid("stopped by something else")
				}
				open = ""
			}
			in.apply(x.s)
			seqs = append(seqs, x.s)
		}
	}
	if open != "" {
		Invalid("left open")
	}
	return cells, seqs
}

func checkCells(e *Env, o lineOpts, p para, got outcome) {
	cells, seqs := inputCells(p)
	if got.err != "" {
		return
	}
	what := fmt.Sprintf("setting %q to %g (%s) gives %v", p.Tokens, p.Width, o, got)
	out := &terminal{}
	// a hyphen at the end of a line is one of the input or one that was added: both are followed
	alive, nseq := []int{0}, 0
	for ln, l := range got.lines {
		els, ok := parseSeqs(l)
		if !ok {
			e.Fail("broken-sequence", "%s: line %d has a sequence that is not in the input", what, ln+1)
		}
		var texts []cell
		for _, x := range els {
			if x.seq {
				out.apply(x.s)
				if nseq < len(seqs) && seqs[nseq] == x.s {
					nseq++
				}
				continue
			}
			for _, r := range x.s {
				texts = append(texts, cell{r, out.state()})
			}
		}
		if st := out.state(); st != "" {
			e.Fail("open-at-end-of-line", "%s: line %d ends with %q still on", what, ln+1, st)
		}
		for k, c := range texts {
			if c.r == ' ' {
				continue
			}
			next := []int{}
			unlike := -1
			add := func(pos int) {
				for _, p := range next {
					if p == pos {
						return
					}
				}
				next = append(next, pos)
			}
			for _, pos := range alive {
				if pos < len(cells) && cells[pos].r == c.r {
					if cells[pos].state == c.state {
						add(pos + 1)
					} else {
						unlike = pos
					}
				}
				if c.r == '-' && k == len(texts)-1 {
					add(pos)
				}
			}
			if len(next) == 0 && unlike >= 0 {
				e.Fail("wrong-attributes", "%s: %q in line %d is shown with %q, it has %q in the input", what, c.r, ln+1, c.state, cells[unlike].state)
			}
			if len(next) == 0 {
				e.Fail("text", "%s: character %d of line %d is not the next one of the input", what, k+1, ln+1)
			}
			if c.state != "" {
				e.Probe("attributed-cell")
			}
			alive = next
		}
	}
	complete := false
	for _, pos := range alive {
		complete = complete || pos == len(cells)
	}
	if !complete {
		e.Fail("text", "%s: characters are missing", what)
	}
	if nseq < len(seqs) {
		e.Fail("lost-sequence", "%s: the sequence %q (number %d) is lost", what, seqs[nseq], nseq+1)
	}
}

func init() {
	n := func() interface{} { return &lineScn{} }
	props["P09"] = &Prop{Gen: genP09, New: n, Exec: execP09}
	props["P10"] = &Prop{Gen: func(r *Rand) interface{} {
		tokens := func() []string { return genTokens(r, genSize(r)) }
		if r.Chance(0.3) {
			plain := tokens
			tokens = func() []string {
				if r.Chance(0.3) {
					return plain()
				}
				out := genAnyAttrTokens(r, genSize(r))
				bare := r.Chance(0.15)
				for i, t := range out {
					if texts, _, ok := shown(t); !ok {
						out[i] = r.Word(wordLetters, 3) // a sequence was put inside another one
					} else if len(texts) == 0 && !bare {
						out[i] += r.Word(wordLetters, 1) // something to see
					}
				}
				return out
			}
		}
		s := genPlain(r)
		s.Paras[0].Tokens = tokens()
		return genHistory(r, s, tokens)
	}, New: n, Exec: execP10, Tasks: true}
	props["P11"] = &Prop{Gen: genP11, New: n, Exec: execP11, Tasks: true}
	props["P12"] = &Prop{Gen: genP12, New: n, Exec: execP12}
	props["P13"] = &Prop{Gen: genP13, New: n, Exec: execP13, Tasks: true}
	props["P14"] = &Prop{Gen: genP14, New: n, Exec: execP14, Tasks: true}
}
