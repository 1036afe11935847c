package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"regexp"
	"sort"

	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/zsim/simrt"
)

var errSink = errors.New("simulated sink error")

// sinkStep is what a sink does with one write: it accepts at most N bytes (all if N<0); Err: it fails even so.
type sinkStep struct {
	N   int  `json:"n"`
	Err bool `json:"err,omitempty"`
	As  int  `json:"as,omitempty"` // kind of error

	Panic bool `json:"panic,omitempty"` // it panics once it has accepted what it accepts
}

var errPanic = errors.New("simulated panic of a sink")

// survive runs fn, which may be cut short by a panic of a sink.
func survive(fn func()) (panicked bool) {
	defer func() {
		switch p := recover(); {
		case p == nil:
		case p == interface{}(errPanic):
			panicked = true
		default:
			panic(p)
		}
	}()
	fn()
	return false
}

// sink accepts bytes, slowly, following a script; after the script it works.
type sink struct {
	e      *Env
	script []sinkStep
	i      int
	got    []byte
	calls  [][2]int // bounds of accepted bytes
	failed bool     // an error was returned since last cleared
	hook   func()   // called in the middle of a write
}

func (s *sink) Write(p []byte) (int, error) {
	st := sinkStep{N: -1}
	if s.i < len(s.script) {
		st = s.script[s.i]
	}
	s.i++
	n := len(p)
	if st.N >= 0 && st.N < n {
		n = st.N
	}
	start := len(s.got)
	simrt.YH(-40)
	for i := 0; i < n; i++ {
		s.got = append(s.got, p[i]) // the writer must leave p alone meanwhile
		if i&3 == 1 {
			simrt.YH(-41)
		}
		if i == n/2 && s.hook != nil {
			s.hook()
		}
	}
	simrt.YH(-42)
	s.calls = append(s.calls, [2]int{start, len(s.got)})
	if st.Panic {
		s.e.Fired("sink-panic")
		s.failed = true
		panic(errPanic)
	}
	switch {
	case n < len(p) && n == 0:
		s.e.Fired("sink-error")
	case n < len(p):
		s.e.Fired("sink-short-write")
	case st.Err:
		s.e.Fired("sink-error-after-all-bytes")
	default:
		return n, nil
	}
	s.failed = true
	return n, simrt.ErrOf(st.As, errSink)
}

// richSink has the other methods that many sinks have.
type richSink struct{ *sink }

func (s richSink) WriteString(t string) (int, error) { return s.Write([]byte(t)) }

func (s richSink) WriteByte(b byte) error {
	_, err := s.Write([]byte{b})
	return err
}

func (s richSink) WriteRune(r rune) (int, error) { return s.Write(encodeUTF8([]rune{r})) }

func (s richSink) ReadFrom(r io.Reader) (int64, error) {
	var n int64
	buf := make([]byte, 512)
	for {
		k, err := r.Read(buf)
		if k > 0 {
			w, werr := s.Write(buf[:k])
			n += int64(w)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func genScript(r *Rand, n int) []sinkStep {
	var out []sinkStep
	p := []float64{0, 0.1, 0.4, 0.9}[r.Intn(4)]
	panics := r.Chance(0.2)
	for i := 0; i < n; i++ {
		st := sinkStep{N: -1}
		if r.Chance(p) {
			switch r.Intn(4) {
			case 0:
				st.N = 0
			case 1, 2:
				st.N = r.Intn(12)
				if r.Chance(0.3) {
					st.N = r.PickInt(15, 63, 64, 100, 127, 128, 255, 256, 500, 511, 512, 1000, 1023, 1024, 2000, 4095, 4096, 5000, 8192)
				}
			default:
				st.Err = true
			}
			if r.Chance(0.5) {
				st.As = r.Intn(simrt.ErrKinds)
			}
			st.Panic = panics && r.Chance(0.5)
		}
		out = append(out, st)
	}
	return out
}

// P05: writer.

type writeOp struct {
	Op    string `json:"op"` // rune, runes, bytes
	W     int    `json:"w"`
	Runes []rune `json:"runes"`
}

type writeScn struct {
	Tasks []writeTask `json:"tasks"`
}

type writeTask struct {
	Sinks [][]sinkStep `json:"sinks"`
	Nest  bool         `json:"nest,omitempty"` // the first sink writes to the last one in the middle of its own writes
	Alias bool         `json:"alias,omitempty"`
	Own   bool         `json:"own,omitempty"`   // writes from a buffer that is filled again and again
	Kinds []int        `json:"kinds,omitempty"` // of sink: 1 with more methods, 2 a writer of runes itself
	Ops   []writeOp    `json:"ops"`
}

var writeRunes = []rune{'a', 'b', 'Z', '0', ' ', '\n', 0, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff,
	-1, -5, -0x80000000, 0xd800, 0xdfff, 0x110000, 0x7fffffff, 0x4e2d, 0x301, 0x1b}

// signs that some programs treat in a way of their own
var signRunes = []rune{0xfeff, 0xfffe, 0x85, 0x9b, 0xa0, 0xad, 0x200b, 0x200d, 0x2028, 0x2029, 0x202e, 0x2060, 0xfe0f, 0xfdd0, 0x1fffe, 0xe0001, 0xe000, 0xfffc, '\r', '\n', '\t', '\b', '\a', 0, '%', '\\', '"'}

func genWrites(r *Rand) interface{} {
	s := &writeScn{}
	pSpecial := []float64{0.5, 0.5, 0, 1}[r.Intn(4)]
	special := writeRunes
	if r.Chance(0.25) {
		special = append(append([]rune{}, writeRunes...), signRunes...)
	} else if r.Chance(0.15) {
		special = signRunes
	}
	if r.Chance(0.3) {
		special = []rune{writeRunes[r.Intn(len(writeRunes))], writeRunes[r.Intn(len(writeRunes))]}
	}
	for t, nt := 0, 1+r.Intn(4); t < nt; t++ {
		var wt writeTask
		nops := 1 + r.Intn(10)
		if r.Chance(0.05) {
			nops = 20 + r.Intn(300)
		}
		for i, n := 0, 1+r.Intn(2); i < n; i++ {
			wt.Sinks = append(wt.Sinks, genScript(r, r.Intn(nops+2)))
			wt.Kinds = append(wt.Kinds, r.PickInt(0, 0, 0, 1, 1, 2))
		}
		wt.Nest = r.Chance(0.3)
		wt.Alias = r.Chance(0.3)
		wt.Own = r.Chance(0.3)
		for i := 0; i < nops; i++ {
			op := writeOp{Op: r.Pick([]string{"rune", "runes", "runes", "bytes"}), W: r.Intn(len(wt.Sinks))}
			n := 1
			if op.Op != "rune" {
				n = r.Intn(9)
				if r.Chance(0.1) {
					n = r.Intn(200)
				}
				if r.Chance(0.02) && nops < 20 {
					n = r.PickInt(255, 256, 1023, 1024, 1025, 4095, 4097, r.Intn(3000), r.Intn(9000))
				}
			}
			for k := 0; k < n; k++ {
				if r.Chance(pSpecial) {
					op.Runes = append(op.Runes, special[r.Intn(len(special))])
				} else {
					op.Runes = append(op.Runes, rune('a'+r.Intn(26)))
				}
			}
			wt.Ops = append(wt.Ops, op)
		}
		s.Tasks = append(s.Tasks, wt)
	}
	return s
}

// encodeUTF8 is the reference encoder.
func encodeUTF8(rs []rune) []byte {
	var out []byte
	for _, r := range rs {
		if r < 0 || r > 0x10ffff || r >= 0xd800 && r <= 0xdfff {
			r = 0xfffd
		}
		switch {
		case r < 0x80:
			out = append(out, byte(r))
		case r < 0x800:
			out = append(out, 0xc0|byte(r>>6), 0x80|byte(r)&0x3f)
		case r < 0x10000:
			out = append(out, 0xe0|byte(r>>12), 0x80|byte(r>>6)&0x3f, 0x80|byte(r)&0x3f)
		default:
			out = append(out, 0xf0|byte(r>>18), 0x80|byte(r>>12)&0x3f, 0x80|byte(r>>6)&0x3f, 0x80|byte(r)&0x3f)
		}
	}
	return out
}

func execP05(e *Env, scn interface{}) {
	s := scn.(*writeScn)
	simrt.ResetAll()
	total := 0
	var fns []func()
	for ti, wt := range s.Tasks {
		ti, wt := ti, wt
		for _, op := range wt.Ops {
			if op.W < 0 || op.W >= len(wt.Sinks) || op.Op == "rune" && len(op.Runes) != 1 {
				Invalid("write")
			}
			total += len(op.Runes)
		}
		fns = append(fns, func() {
			var sinks []*sink
			var writers []runesio.Writer
			for i, script := range wt.Sinks {
				k := &sink{e: e, script: script}
				sinks = append(sinks, k)
				var to io.Writer = k
				if i < len(wt.Kinds) {
					switch wt.Kinds[i] {
					case 1:
						to = richSink{k}
					case 2:
						to = runesio.NewWriter(k)
					}
				}
				if wt.Alias {
					writers = append(writers, runesio.AsRunesWriter(to))
				} else {
					writers = append(writers, runesio.NewWriter(to))
				}
			}
			var buf ownBuffer
			depth := 0
			do := func(op writeOp) {
				depth++
				defer func() { depth-- }()
				k, w := sinks[op.W], writers[op.W]
				what := fmt.Sprintf("task %d: %s %U on a writer", ti, op.Op, op.Runes)
				want := encodeUTF8(op.Runes)
				in := append([]rune{}, op.Runes...)
				if wt.Own && depth == 1 {
					in = buf.fill(op.Runes).text
				}
				inb := append([]byte{}, want...)
				start := len(k.got)
				k.failed = false
				var n int
				var err error
				panicked := survive(func() {
					switch op.Op {
					case "rune":
						n, err = w.WriteRune(in[0])
					case "runes":
						n, err = w.WriteRunes(in)
					case "bytes":
						n, err = w.Write(inb)
					default:
						Invalid("op")
					}
				})
				if panicked {
					n, err = len(k.got)-start, errPanic // the caller knows
				}
				got := k.got[start:]
				switch {
				case !bytes.HasPrefix(want, got):
					e.Fail("not-a-prefix", "%s: the sink accepted % x, the encoding is % x", what, got, want)
				case n != len(got):
					e.Fail("wrong-count", "%s: the count is %d, the sink accepted %d bytes of %d (error %v)", what, n, len(got), len(want), err)
				case err == nil && len(got) < len(want):
					e.Fail("unreported", "%s: no error although the sink accepted %d bytes of %d", what, len(got), len(want))
				case err != nil && !k.failed:
					e.Fail("invented", "%s: error %v although the sink accepted everything", what, err)
				case !runesEq(in, op.Runes) || !bytes.Equal(inb, want):
					e.Fail("input-modified", "%s: the input was modified", what)
				}
				e.Op(fmt.Sprint(op.Op, n, err))
			}
			if wt.Nest && len(sinks) > 1 {
				last := len(sinks) - 1
				nested := 0
				sinks[0].hook = func() {
					if nested++; nested < 6 {
						e.Probe("write-inside-a-write")
						do(writeOp{Op: "runes", W: last, Runes: []rune("nestedé")})
					}
				}
			}
			for _, op := range wt.Ops {
				do(op)
			}
		})
	}
	e.Par(int64(1e6+2000*total), fns...)
}

// P06: slice reader.

type readOp struct {
	Op     string `json:"op"` // read, seek, runes, slice, slices, bytes, regexp
	Off    int64  `json:"off,omitempty"`
	Whence int    `json:"whence,omitempty"`
	Pairs  []int  `json:"pairs,omitempty"`
	Re     int    `json:"re,omitempty"`
	T      int    `json:"t,omitempty"` // of which reader: one per task and text
}

type readScn struct {
	Texts []string   `json:"texts"`
	Tasks [][]readOp `json:"tasks"`
}

var regexps = []*regexp.Regexp{
	regexp.MustCompile(`[a-c]+`),
	regexp.MustCompile(`(é+)(x)?`),
	regexp.MustCompile(`^.`),
	regexp.MustCompile(`(.)(.)(.*)$`),
	regexp.MustCompile(`q`),
	regexp.MustCompile(`([^a])(a|b|)`),
	regexp.MustCompile(``),
	regexp.MustCompile(`[\x{4e00}-\x{9fff}]|[\x{1f600}]`),
}

func genReads(r *Rand) interface{} {
	s := &readScn{}
	n := r.Intn(14)
	if r.Chance(0.06) {
		n = r.PickInt(31, 32, 63, 64, 65, 100, 127, 128, 130, 255, 256, 257, 500, 1024, 1100)
	}
	letters := func() string {
		return r.Pick([]string{"abcé中😀 \u0301xaé中\uFFFD\x00ß\n", "abcé中😀 \u0301x", "abc", "é\u0301ß", "中語\uFFFDa", "😀\U0010FFFF", "é中😀", "aé中" + invalidLetters, "\ufeffa\u2028\u0085é", "\ufeff\x00a\uffff"})
	}
	s.Texts = []string{r.Word(letters(), n)}
	ns := []int{n}
	for r.Chance(0.4) && len(s.Texts) < 4 {
		m := n
		if r.Chance(0.4) {
			m = r.Intn(14)
		}
		s.Texts = append(s.Texts, r.Word(letters(), m))
		ns = append(ns, m)
	}
	most := 25
	if n < 100 && r.Chance(0.05) {
		most = 300
	}
	for t, nt := 0, 1+r.Intn(3); t < nt; t++ {
		var l []readOp
		for i, k := 0, 1+r.Intn(most); i < k; i++ {
			op := readOp{Op: r.Pick([]string{"read", "read", "read", "seek", "seek", "runes", "slice", "slices", "bytes", "regexp"})}
			op.T = r.Intn(len(ns))
			n := ns[op.T]
			switch op.Op {
			case "seek":
				op.Whence = r.Intn(3)
				op.Off = int64(r.Range(-n-2, n+2))
				switch r.Intn(20) {
				case 0:
					op.Off = 1<<63 - 1
				case 1:
					op.Off = -1 << 63
				case 2:
					op.Off = 1<<32 + int64(r.Intn(4))
				}
			case "slice", "slices", "bytes":
				m := 1
				if op.Op != "slice" {
					m = r.Intn(4)
					if r.Chance(0.05) {
						m = r.PickInt(8, 16, 17, 40)
					}
				}
				for j := 0; j < m; j++ {
					a, b := r.Intn(n+1), r.Intn(n+1)
					if a > b {
						a, b = b, a
					}
					op.Pairs = append(op.Pairs, a, b)
				}
			case "regexp":
				op.Re = r.Intn(len(regexps))
			}
			l = append(l, op)
		}
		s.Tasks = append(s.Tasks, l)
	}
	return s
}

type countingReader struct {
	r    io.RuneReader
	n    int
	stop int // pretend the end of the stream there
}

func (c *countingReader) ReadRune() (rune, int, error) {
	r, size, err := c.r.ReadRune()
	if err == nil {
		c.n++
	}
	return r, size, err
}

// sizeOf gives the number of bytes that encode a rune: those of U+FFFD when it is not valid.
func sizeOf(r rune) int { return len(string(r)) }

// plainReader is what a regexp should see of a reader.
type plainReader struct {
	text []rune
	pos  int
}

func (p *plainReader) ReadRune() (rune, int, error) {
	if p.pos == len(p.text) {
		return 0, 0, io.EOF
	}
	p.pos++
	return p.text[p.pos-1], sizeOf(p.text[p.pos-1]), nil
}

func withoutMarks(text []rune) []rune {
	var out []rune
	for _, r := range text {
		if r != -1 {
			out = append(out, r)
		}
	}
	return out
}

func execP06(e *Env, scn interface{}) {
	s := scn.(*readScn)
	simrt.ResetAll()
	var gs []*guarded
	var offs [][]int
	most := 0
	for _, t := range s.Texts {
		g := newGuarded(keyRunes(t))
		off := make([]int, len(g.orig)+1)
		for i, r := range g.orig {
			off[i+1] = off[i] + sizeOf(r)
		}
		gs, offs = append(gs, g), append(offs, off)
		if len(g.orig) > most {
			most = len(g.orig)
		}
	}
	total := 0
	var fns []func()
	for ti, ops := range s.Tasks {
		ti, ops := ti, ops
		total += len(ops)
		for _, op := range ops {
			if len(op.Pairs)%2 != 0 || op.Op == "slice" && len(op.Pairs) != 2 || op.Whence < 0 || op.Whence > 2 || op.Re < 0 || op.Re >= len(regexps) || op.T < 0 || op.T >= len(gs) {
				Invalid("op")
			}
			text := gs[op.T].orig
			for i, p := range op.Pairs {
				if p < 0 || p > len(text) || i%2 == 1 && p < op.Pairs[i-1] {
					Invalid("pairs")
				}
			}
		}
		fns = append(fns, func() {
			rds := make([]*runesio.SliceReader, len(gs))
			poss := make([]int, len(gs))
			var hist []string
			for _, op := range ops {
				op := op
				text, byteOff := gs[op.T].orig, offs[op.T]
				if rds[op.T] == nil {
					rds[op.T] = runesio.NewSliceReader(gs[op.T].text)
				}
				rd, pos := rds[op.T], poss[op.T]
				if op.Op == "regexp" && !runesEq(text, withoutMarks(text)) {
					op.Op = "runes" // regexps take -1 for the end of the text, and never get there
				}
				fail := func(class, format string, args ...interface{}) {
					e.Fail(class, "task %d on %q after %v: %s", ti, s.Texts[op.T], hist, fmt.Sprintf(format, args...))
				}
				switch op.Op {
				case "read":
					r, size, err := rd.ReadRune()
					if pos < len(text) {
						if err != nil || r != text[pos] || size != sizeOf(text[pos]) {
							fail("wrong-read", "ReadRune at %d gives %q %d %v", pos, r, size, err)
						}
						pos++
					} else if err != io.EOF || size != 0 {
						fail("wrong-read", "ReadRune at the end gives %q %d %v", r, size, err)
					}
				case "seek":
					n, err := rd.Seek(op.Off, op.Whence)
					base := []int64{0, int64(pos), int64(len(text))}[op.Whence]
					to := base + op.Off
					ok := to >= 0 && to <= int64(len(text)) && (op.Off <= 0 || to >= base) // no overflow
					switch {
					case ok && (err != nil || n != to):
						fail("wrong-seek", "Seek(%d,%d) at %d gives %d %v", op.Off, op.Whence, pos, n, err)
					case !ok && err == nil:
						fail("wrong-seek", "Seek(%d,%d) at %d of %d gives %d and no error", op.Off, op.Whence, pos, len(text), n)
					case ok:
						pos = int(to)
					default:
						e.Probe("seek-refused")
					}
				case "runes":
				case "slice":
					if got := rd.Slice(op.Pairs[0], op.Pairs[1]); !runesEq(got, text[op.Pairs[0]:op.Pairs[1]]) {
						fail("wrong-slice", "Slice(%v) gives %q", op.Pairs, string(got))
					}
				case "slices", "bytes":
					var want [][]rune
					var arg []int
					for i := 0; i < len(op.Pairs); i += 2 {
						want = append(want, text[op.Pairs[i]:op.Pairs[i+1]])
					}
					var got [][]rune
					if op.Op == "slices" {
						arg = append(arg, op.Pairs...)
						got = rd.Slices(arg)
					} else {
						for _, p := range op.Pairs {
							arg = append(arg, byteOff[p])
						}
						got = rd.SliceFromByteOffsets(arg)
					}
					if !partsEq(got, want) {
						fail("wrong-slice", "%s %v gives %q, want %q", op.Op, arg, showParts(got), showParts(want))
					}
				case "regexp":
					// a scan by a regexp from the start, which stops reading wherever it likes
					if _, err := rd.Seek(0, io.SeekStart); err != nil {
						fail("wrong-seek", "Seek to the start fails: %v", err)
					}
					pos = 0
					c := &countingReader{r: rd}
					loc := regexps[op.Re].FindReaderSubmatchIndex(c)
					pos = c.n
					ref := regexps[op.Re].FindReaderSubmatchIndex(&plainReader{text: text})
					if fmt.Sprint(loc) != fmt.Sprint(ref) {
						fail("wrong-read", "regexp %s finds %v, want %v", regexps[op.Re], loc, ref)
					}
					got := rd.SliceFromByteOffsets(loc)
					for i := 0; i < len(ref); i += 2 {
						var want []rune
						if ref[i] >= 0 {
							want = text[sort.SearchInts(byteOff, ref[i]):sort.SearchInts(byteOff, ref[i+1])]
						}
						if len(got) != len(ref)/2 || !runesEq(got[i/2], want) {
							fail("wrong-slice", "match %v gives %q", loc, showParts(got))
						}
					}
					e.Probe("regexp-scan")
				default:
					Invalid("op")
				}
				poss[op.T] = pos
				hist = append(hist, fmt.Sprint(op.Op, op.T))
				if got := rd.Runes(); !runesEq(got, text[pos:]) {
					fail("wrong-rest", "the unread rest is %q, want %q", string(got), string(text[pos:]))
				}
				e.Op(op.Op)
			}
			// the rest comes out in order
			for i, rd := range rds {
				for text, pos := gs[i].orig, poss[i]; rd != nil && pos < len(text); pos++ {
					r, _, err := rd.ReadRune()
					if err != nil || r != text[pos] {
						e.Fail("wrong-read", "task %d on %q after %v: ReadRune at %d gives %q %v", ti, s.Texts[i], hist, pos, r, err)
					}
				}
			}
		})
	}
	e.Par(int64(1e6+10000*total+1000*total*most), fns...)
	for _, g := range gs {
		g.check(e, "at the end")
	}
}

func init() {
	props["P05"] = &Prop{Gen: genWrites, New: func() interface{} { return &writeScn{} }, Exec: execP05, Tasks: true}
	props["P06"] = &Prop{Gen: genReads, New: func() interface{} { return &readScn{} }, Exec: execP06, Tasks: true}
}
