package main

import (
	"fmt"
	"unicode"

	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/zsimtrie"
	"github.com/fredbi/go-typeset/zsim/simrt"
)

// P16: the rules store.

type trieOp struct {
	Op  string `json:"op"` // put, get, del
	Key string `json:"key"`
	Val int    `json:"val,omitempty"`
	C   int    `json:"c,omitempty"` // client
}

type trieScn struct {
	Ops     []trieOp   `json:"ops"` // clients take turns
	Readers [][]string `json:"readers"`
	Probe   []string   `json:"probe"`
}

// wideAlphabet has more letters than fit in small tables, some of which agree in their lowest bits.
var wideAlphabet = func() string {
	var out []rune
	for i := 0; i < 26; i++ {
		out = append(out, rune('a'+i), rune('a'+i+0x100), rune('a'+i+0x1000))
	}
	for i := 0; i < 20; i++ {
		out = append(out, rune(0xa1+i), rune('0'+i/2), rune(0x10061+i*0x100))
	}
	return string(out)
}()

// Keys may hold runes that are not valid: private ones stand for them.
const invalidLetters = "\ue0f0\ue0f1\ue0f2\ue0f3\ue0f4\ue0f5"

var invalidRunes = [...]rune{0xd800, 0xdfff, -1, 0x110000, 0x7fffffff, -0x80000000}

func keyRunes(k string) []rune {
	rs := []rune(k)
	for i, r := range rs {
		if r >= 0xe0f0 && int(r-0xe0f0) < len(invalidRunes) {
			rs[i] = invalidRunes[r-0xe0f0]
		}
	}
	return rs
}

func genTrie(r *Rand) interface{} {
	s := &trieScn{}
	alphabet := []string{"ab", "abc", "aé中😀", wideAlphabet, "a\x00" + invalidLetters, "é\ufffd\U0010ffff" + invalidLetters[:6], "\x00\uffff\ufeff\U0010ffff"}[r.Intn(7)]
	if r.Chance(0.03) {
		alphabet = ""
		for i, first := 0, r.PickInt('a', 0x400, 0x4e00); i < 300; i++ {
			alphabet += string(rune(first + i))
		}
	}
	maxLen := 2 + r.Intn(5)
	if r.Chance(0.05) {
		maxLen = r.PickInt(16, 33, 65, 130, 260)
	}
	nOps := 1 + r.Intn(60)
	if maxLen < 30 && r.Chance(0.04) {
		nOps = 100 + r.Intn(500)
	}
	vals := 0 // as many different values, if not zero
	if r.Chance(0.3) {
		vals = 1 + r.Intn(3)
	}
	var used []string
	key := func() string {
		if len(used) > 0 && r.Chance(0.6) {
			k := used[r.Intn(len(used))]
			rs := []rune(k)
			switch r.Intn(4) {
			case 0:
				k += r.Word(alphabet, 1+r.Intn(2))
			case 1:
				k = string(rs[:r.Intn(len(rs)+1)])
			}
			return k
		}
		return r.Word(alphabet, r.Intn(maxLen+1))
	}
	pDel := []float64{0.1, 0.3, 0.5}[r.Intn(3)]
	for i := 0; i < nOps; i++ {
		k := key()
		used = append(used, k)
		op := trieOp{Op: "get", Key: k, C: r.Intn(3)}
		switch {
		case r.Chance(pDel):
			op.Op = "del"
		case r.Chance(0.7):
			op.Op = "put"
			op.Val = 1 + i
			if vals > 0 {
				op.Val = 1 + i%vals
			}
		}
		s.Ops = append(s.Ops, op)
	}
	for i := 0; i < 12; i++ {
		s.Probe = append(s.Probe, key())
	}
	for t, nt := 0, r.Intn(4); t < nt; t++ {
		var l []string
		for i, n := 0, 1+r.Intn(15); i < n; i++ {
			l = append(l, key())
		}
		s.Readers = append(s.Readers, l)
	}
	return s
}

func execP16(e *Env, scn interface{}) {
	s := scn.(*trieScn)
	simrt.ResetAll()
	model := map[string]int{}
	tr := zsimtrie.New()
	// clients reuse one buffer for their keys, as the hyphenator does
	bufs := make([][]rune, 8)
	key := func(c int, k string) []rune {
		bufs[c] = append(bufs[c][:0], keyRunes(k)...)
		return bufs[c]
	}
	check := func(who string, buf []rune, k string) {
		got := tr.Get(buf)
		want, ok := model[k]
		switch {
		case !ok && got != nil:
			e.Fail("ghost", "%s: Get(%q) = %v, want nothing", who, k, got)
		case ok && got == nil:
			e.Fail("lost", "%s: Get(%q) gives nothing, want %d", who, k, want)
		case ok && got != interface{}(want):
			e.Fail("wrong-value", "%s: Get(%q) = %v, want %d", who, k, got, want)
		}
		e.Op(fmt.Sprint(got))
	}
	size := 100
	for _, op := range s.Ops {
		size += len(op.Key)
	}
	limit := int64(size*(len(s.Probe)+len(s.Ops)/8)+1000) * 2000
	e.Seq(limit, func() {
		var keys []string // all keys ever used
		for i, op := range s.Ops {
			c := op.C & 7
			who := fmt.Sprintf("after %d operations (%s %q)", i+1, op.Op, op.Key)
			k := key(c, op.Key)
			switch op.Op {
			case "put":
				if op.Val == 0 {
					Invalid("value")
				}
				_, had := model[op.Key]
				if isNew := tr.Put(k, op.Val); isNew == had {
					e.Fail("wrong-insert", "%s: Put tells new=%v, the key had a value: %v", who, isNew, had)
				}
				model[op.Key] = op.Val
			case "del":
				_ = tr.Delete(k)
				delete(model, op.Key)
				e.Probe("delete")
			case "get":
				check(who, k, op.Key)
			default:
				Invalid("op")
			}
			if !runesEq(k, keyRunes(op.Key)) {
				e.Fail("input-modified", "%s: the key was modified", who)
			}
			keys = append(keys, op.Key)
			for _, p := range s.Probe {
				check(who, key(0, p), p)
			}
			if i%8 == 7 && (i < 100 || i%128 == 7) || i == len(s.Ops)-1 {
				for _, p := range keys {
					check(who, key(0, p), p)
				}
			}
		}
	})
	var fns []func()
	for ti, l := range s.Readers {
		ti, l := ti, l
		fns = append(fns, func() {
			var buf []rune
			for _, k := range append(l, s.Probe...) {
				buf = append(buf[:0], keyRunes(k)...)
				check(fmt.Sprintf("reader %d", ti), buf, k)
			}
		})
	}
	e.Par(limit, fns...)
}

// P15: decoding of damaged tokens.

type damage struct {
	Kind string `json:"kind"` // cut, drop, dup, change, insert
	At   int    `json:"at"`
	R    rune   `json:"r,omitempty"`
}

// streamToken is a token and what happens to it on its way.
type streamToken struct {
	Token  []rune   `json:"token"`
	Damage []damage `json:"damage"`
}

type streamScn struct {
	Tokens []streamToken `json:"tokens"`
	Tasks  [][]int       `json:"tasks"`           // what each task decodes
	Own    bool          `json:"own,omitempty"`   // each task fills a buffer of its own again and again
	Steps  int           `json:"steps,omitempty"` // so many tokens are taken apart at once, piece by piece
}

var (
	seqStarts = []string{"\x1b[31m", "\x1b[1m", "\x1b[38;5;120m", "\x1b[38;2;255;128;7m", "\x1b[4h", "\x1b[s", "\x1b[1;31m", "\x1b[38:5:200m", "\x1b[100m", "\x1b[2;20;5h", "\x1b[;31m"}
	seqStops  = []string{"\x1b[0m", "\x1b[m", "\x1b[4l", "\x1b[u", "\x1b[000m", "\x1b[20l", "\x1b[0;0m"}
	seqOthers = []string{"\x1b[2K", "\x1b[H", "\x1b[10;20H", "\x1b[6n", "\x1b[~", "\x1b[3~", "\x1b[?25h", "\x1b[A", "\x1bc", "\x1b(B", "\x1b]0;t\a", "\x1b", "\x1b[", "\x1b\x1b", "\x1b[1234m", "\x1b[12;3456m", "\x1b[;;;m"}
	damageSet = append([]rune("\x1b[;:m0123shulKa ~é\x1b[m0\x00\u009b"), 0xd800)
	oddRunes  = append([]rune("\x00\x00\x07\b\t\n\r\x18\x7f\u0080\u009b\u009c\u00ad\u0301\u200b\u200d\u2028\ufeff\ufffd\uffff\U0010ffff"), 0xd800, 0xdfff, -1, 0x110000)
)

// genSeq draws an intact sequence, possibly of many parameters.
func genSeq(r *Rand) string {
	out := "\x1b["
	n := r.Intn(5)
	if r.Chance(0.3) {
		n = r.Intn(40)
	}
	for i := 0; i <= n; i++ {
		if i > 0 {
			out += r.Pick([]string{";", ";", ";", ":"})
		}
		out += r.Word("0123456789", r.Intn(4))
	}
	return out + r.Pick([]string{"m", "m", "m", "s", "h", "u", "l"})
}

func genStream(r *Rand) interface{} {
	s := &streamScn{}
	n := 1
	if r.Chance(0.4) {
		n += r.Intn(5)
	}
	for i := 0; i < n; i++ {
		t := genStreamToken(r)
		if i > 0 && r.Chance(0.4) {
			// another copy of a token, with damage of its own
			t.Token = append([]rune{}, s.Tokens[r.Intn(i)].Token...)
		}
		s.Tokens = append(s.Tokens, t)
	}
	s.Own = r.Chance(0.3)
	if r.Chance(0.3) {
		s.Steps = 1 + r.Intn(3)
	}
	for t, nt := 0, 1+r.Intn(n); t < nt; t++ {
		m := 1
		if n > 1 {
			m = 1 + r.Intn(2*n)
			if r.Chance(0.05) {
				m = 50 + r.Intn(100)
			}
		}
		var l []int
		for i := 0; i < m; i++ {
			l = append(l, r.Intn(n))
		}
		s.Tasks = append(s.Tasks, l)
	}
	return s
}

func genStreamToken(r *Rand) streamToken {
	var s streamToken
	n := 1 + r.Intn(6)
	if r.Chance(0.1) {
		n += r.Intn(12)
	}
	if r.Chance(0.01) {
		n = r.PickInt(100, 300, 700, 1500)
	}
	if r.Chance(0.1) {
		// anything at all
		for i, m := 0, r.Intn(16); i < m; i++ {
			s.Token = append(s.Token, damageSet[r.Intn(len(damageSet))])
		}
	}
	for i := 0; i < n; i++ {
		var p string
		switch r.Intn(6) {
		case 0, 1:
			p = r.Word("abc é中m0[;", 1+r.Intn(5))
			if r.Chance(0.05) {
				p = r.Word("abc é中m0[;\U0010ffff", 50+r.Intn(400))
			}
		case 2, 3:
			p = r.Pick(seqStarts)
			if r.Chance(0.3) {
				p = genSeq(r)
			}
		case 4:
			p = r.Pick(seqStops)
		default:
			p = r.Pick(seqOthers)
		}
		s.Token = append(s.Token, []rune(p)...)
		if r.Chance(0.1) {
			for i, m := 0, 1+r.Intn(3); i < m; i++ {
				s.Token = append(s.Token, oddRunes[r.Intn(len(oddRunes))])
			}
		}
	}
	if r.Chance(0.8) {
		for i, m := 0, 1+r.Intn(4); i < m; i++ {
			d := damage{Kind: r.Pick([]string{"cut", "drop", "dup", "change", "insert"}), At: r.Intn(len(s.Token) + 1)}
			if d.Kind == "change" || d.Kind == "insert" {
				d.R = damageSet[r.Intn(len(damageSet))]
			}
			s.Damage = append(s.Damage, d)
		}
	}
	return s
}

// span of a token according to the grammar of control sequences.
type span struct {
	from, to int
	kind     byte // 't' one rune of text, 's' intact start or stop sequence, 'x' anything else introduced by ESC [
}

func lex(t []rune) []span {
	var out []span
	for i := 0; i < len(t); {
		if t[i] != '\x1b' || i+1 >= len(t) || t[i+1] != '[' {
			out = append(out, span{i, i + 1, 't'})
			i++
			continue
		}
		j := i + 2
		digits := func() {
			for k := 0; k < 3 && j < len(t) && unicode.IsDigit(t[j]); k++ {
				j++
			}
		}
		digits()
		for j < len(t) && (t[j] == ';' || t[j] == ':') {
			j++
			digits()
		}
		kind := byte('x')
		if j < len(t) {
			switch t[j] {
			case 'm', 's', 'h', 'u', 'l':
				kind = 's'
			}
			j++
		}
		out = append(out, span{i, j, kind})
		i = j
	}
	return out
}

// arrives is what is left of a token.
func (t streamToken) arrives(e *Env) []rune {
	tok := append([]rune{}, t.Token...)
	for _, d := range t.Damage {
		at := d.At
		if at < 0 || at > len(tok) {
			at = len(tok)
		}
		switch {
		case d.Kind == "cut":
			tok = tok[:at]
		case d.Kind == "insert":
			tok = append(tok[:at], append([]rune{d.R}, tok[at:]...)...)
		case at == len(tok):
			continue
		case d.Kind == "drop":
			tok = append(tok[:at], tok[at+1:]...)
		case d.Kind == "dup":
			tok = append(tok[:at], append([]rune{tok[at]}, tok[at:]...)...)
		case d.Kind == "change":
			tok[at] = d.R
		default:
			Invalid("damage")
		}
		e.Fired("rune-" + d.Kind)
	}
	return tok
}

func execP15(e *Env, scn interface{}) {
	s := scn.(*streamScn)
	var toks []*guarded
	size := 0
	for _, t := range s.Tokens {
		toks = append(toks, newGuarded(t.arrives(e)))
	}
	simrt.ResetAll()
	var fns []func()
	for ti, l := range s.Tasks {
		ti, l := ti, l
		for _, i := range l {
			if i < 0 || i >= len(toks) {
				Invalid("token")
			}
			size += (len(toks[i].text) + 1) * (len(toks[i].text) + 1)
		}
		fns = append(fns, func() {
			var buf ownBuffer
			if s.Steps > 0 && !s.Own {
				stepwise(e, s.Steps, toks, l, fmt.Sprintf("task %d", ti))
				return
			}
			for _, i := range l {
				what, g := fmt.Sprintf("task %d, token %q", ti, string(toks[i].orig)), toks[i]
				if s.Own {
					e.Probe("buffer-filled-again")
					g = buf.fill(g.orig)
				}
				decode(e, g, what)
				if s.Own {
					g.check(e, what)
				}
			}
		})
	}
	e.Par(int64(20000+400*size+1000*len(fns)), fns...)
	for _, g := range toks {
		g.check(e, "at the end")
	}
}

// decode checks what becomes of a token.
func decode(e *Env, g *guarded, what string) {
	judgePieces(e, g.orig, ansi.StripToken(g.text), what)
}

// stepwise takes tokens apart piece by piece, some of them at once.
func stepwise(e *Env, n int, toks []*guarded, l []int, task string) {
	type run struct {
		g      *guarded
		rest   []rune
		pieces []ansi.StrippedToken
	}
	var live []*run
	for next := 0; len(live) > 0 || next < len(l); {
		for len(live) < n && next < len(l) {
			g := toks[l[next]]
			live = append(live, &run{g: g, rest: g.text})
			next++
		}
		d := live[0]
		live = live[1:]
		p := ansi.StripANSIFromRunes(d.rest)
		d.pieces = append(d.pieces, p)
		d.rest = p.Remainder
		if len(d.rest) > 0 && len(d.pieces) <= len(d.g.orig) {
			live = append(live, d)
			continue
		}
		e.Probe("taken-apart-stepwise")
		judgePieces(e, d.g.orig, d.pieces, fmt.Sprintf("%s, token %q piece by piece", task, string(d.g.orig)))
	}
}

func judgePieces(e *Env, tok []rune, pieces []ansi.StrippedToken, what string) {
	at := 0
	isolated := map[span]bool{}
	for i, p := range pieces {
		from := at
		for k, part := range [][]rune{p.StartSequence, p.Text, p.StopSequence} {
			if at+len(part) > len(tok) || !runesEq(part, tok[at:at+len(part)]) {
				e.Fail("runes-changed", "%s: the pieces %s are not the token", what, showPieces(pieces))
			}
			if k != 1 {
				isolated[span{at, at + len(part), 0}] = true
			}
			at += len(part)
		}
		if !runesEq(p.Remainder, tok[at:]) {
			e.Fail("runes-changed", "%s: remainder %q of piece %d is not what is left", what, string(p.Remainder), i)
		}
		if at == from && i < len(pieces)-1 {
			e.Fail("no-progress", "%s: piece %d consumes nothing: %s", what, i, showPieces(pieces))
		}
		e.Op(string(p.Text))
	}
	if at != len(tok) {
		e.Fail("runes-lost", "%s: %d runes are not in the pieces %s", what, len(tok)-at, showPieces(pieces))
	}
	spans := lex(tok)
	for i, sp := range spans {
		if sp.kind == 's' && (i == 0 || spans[i-1].kind != 'x') {
			e.Probe("intact-sequence")
			if !isolated[span{sp.from, sp.to, 0}] {
				e.Fail("not-isolated", "%s: sequence %q at %d is not isolated in %s", what, string(tok[sp.from:sp.to]), sp.from, showPieces(pieces))
			}
		}
	}
}

func showPieces(ps []ansi.StrippedToken) string {
	out := ""
	for _, p := range ps {
		out += fmt.Sprintf("{%q %q %q}", string(p.StartSequence), string(p.Text), string(p.StopSequence))
	}
	return out
}

func init() {
	props["P16"] = &Prop{Gen: genTrie, New: func() interface{} { return &trieScn{} }, Exec: execP16, Tasks: true}
	props["P15"] = &Prop{Gen: genStream, New: func() interface{} { return &streamScn{} }, Exec: execP15, Tasks: true}
}
