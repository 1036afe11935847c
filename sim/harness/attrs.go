package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/zsim/simrt"
)

// attrItem is an item of a sequence of rendered items.
type attrItem struct {
	Start bool `json:"start,omitempty"`
	Text  int  `json:"text"` // length
	Stop  bool `json:"stop,omitempty"`
	Stray bool `json:"stray,omitempty"` // a stop that closes nothing
	Late  bool `json:"late,omitempty"`  // the stop is set after the item was pushed
	Nil   bool `json:"nil,omitempty"`   // a nil is pushed before
	Pad   int  `json:"pad,omitempty"`   // how much longer the text is
}

type attrWalk struct {
	Breaks []int      `json:"breaks"` // break after items (possibly several times after the same one)
	First  bool       `json:"first,omitempty"`
	Script []sinkStep `json:"script,omitempty"`
	Group  bool       `json:"group,omitempty"` // render through Renderers
	// a second walk takes turns with this one in the same task: steps of the other one after each step
	Other int  `json:"other,omitempty"`
	Own   bool `json:"own,omitempty"` // a state of its own rather than the shared one
	// lines ended and started before the first item (not with First) and after the last one
	Before int `json:"before,omitempty"`
	After  int `json:"after,omitempty"`
}

type attrScn struct {
	Items []attrItem   `json:"items"`
	Same  int          `json:"same,omitempty"`  // as many different sequences, if not zero
	Pads  []int        `json:"pads,omitempty"`  // how much longer the sequences are
	Early int          `json:"early,omitempty"` // items pushed before a first walk over the state, which is then completed
	Own   bool         `json:"own,omitempty"`   // renderers are the caller's
	Tasks [][]attrWalk `json:"tasks"`
}

// ownRenderer is a renderer which is not one of the package.
type ownRenderer struct {
	attributes.Renderer
}

func genAttrs(r *Rand, faults bool) *attrScn {
	s := &attrScn{}
	n := 1 + r.Intn(10)
	if r.Chance(0.1) {
		n += r.Intn(20)
	}
	open := 0
	pStart := []float64{0.1, 0.3, 0.6}[r.Intn(3)]
	pStop := 0.35
	big := r.Chance(0.05)
	if big {
		n = r.PickInt(33, 50, 70, 130, 260)
		pStart = []float64{0.1, 0.5, 0.9}[r.Intn(3)]
		pStop = []float64{0.05, 0.35, 0.6}[r.Intn(3)]
	}
	deep := r.Chance(0.01)
	if deep {
		big = true
		n = r.PickInt(130, 260, 300, 520)
		pStart, pStop = 1, 0
	}
	if r.Chance(0.4) {
		s.Same = 1 + r.Intn(3)
	}
	long := r.Chance(0.2)
	if r.Chance(0.3) {
		for i, k := 0, 1+r.Intn(4); i < k; i++ {
			p := r.Intn(6)
			if r.Chance(0.1) {
				p = r.PickInt(15, 16, 31, 32, 63, 64, 100, 260)
			}
			s.Pads = append(s.Pads, p)
		}
	}
	strays := r.Chance(0.4)
	for i := 0; i < n; i++ {
		it := attrItem{Text: 1 + r.Intn(2), Nil: r.Chance(0.05), Late: r.Chance(0.4)}
		if r.Chance(0.1) {
			it.Text = 0
		}
		if long && r.Chance(0.3) {
			it.Pad = r.PickInt(1, 2, 5, 14, 30, 31, 62, 63, 126, 127, 254, 255, 300)
		}
		if r.Chance(pStart) {
			it.Start = true
			open++
		}
		if open > 0 && r.Chance(pStop) {
			it.Stop = true
			open--
		} else if open == 0 && strays && r.Chance(0.4) {
			it.Stray = true
		}
		s.Items = append(s.Items, it)
	}
	for ; open > 0; open-- {
		s.Items = append(s.Items, attrItem{Text: r.Intn(2), Stop: true, Late: r.Chance(0.4)})
	}
	if r.Chance(0.01) {
		s.Items = nil
	}
	n = len(s.Items)
	if r.Chance(0.15) && n > 0 {
		s.Early = 1 + r.Intn(n)
	}
	s.Own = r.Chance(0.1)
	walk := func() attrWalk {
		w := attrWalk{First: r.Chance(0.25), Group: r.Chance(0.2), Own: r.Chance(0.2)}
		if r.Chance(0.15) {
			w.Before, w.After = r.Intn(3), r.Intn(3)
		}
		p := []float64{0, 0.2, 0.5, 1}[r.Intn(4)]
		if big && p == 1 {
			p = 0.1
		}
		if deep {
			p /= 10
		}
		for i := 0; i < n; i++ {
			for r.Chance(p) {
				w.Breaks = append(w.Breaks, i)
				if !r.Chance(0.1) {
					break
				}
			}
		}
		if faults && r.Chance(0.8) {
			w.Script = genScript(r, r.Intn(4*n+4))
		}
		w.Other = r.Intn(3)
		return w
	}
	for t, nt := 0, 1+r.Intn(4); t < nt; t++ {
		var l []attrWalk
		for i, m := 0, 1+r.Intn(3); i < m; i++ {
			l = append(l, walk())
		}
		s.Tasks = append(s.Tasks, l)
	}
	return s
}

// every piece of output is made of its own runes, so that they can be told apart.
const (
	startBase = 0x10000
	stopBase  = 0x20000
	strayBase = 0x30000
	textBase  = 0x40000
	padRune   = 'p'
)

// label tells apart the contexts that can be told apart.
func (s *attrScn) label(i int) int {
	if s.Same > 0 {
		return i % s.Same
	}
	return i
}

func (s *attrScn) pad(k int) int {
	if len(s.Pads) == 0 {
		return 0
	}
	return s.Pads[k%len(s.Pads)]
}

func padded(first rune, n int) []rune {
	out := []rune{first}
	for i := 0; i < n; i++ {
		out = append(out, padRune)
	}
	return out
}

func (s *attrScn) startOf(i int) []rune {
	return padded(rune(startBase+s.label(i)), s.pad(s.label(i)))
}

func (s *attrScn) stopOf(i int) []rune {
	return padded(rune(stopBase+s.label(i)), s.pad(s.label(i)+1))
}

func (s *attrScn) strayOf(i int) []rune { return padded(rune(strayBase+i), s.pad(i)) }

// unpad checks that everything has its length, and leaves the first runes.
func (s *attrScn) unpad(e *Env, what string, out []rune) []rune {
	var short []rune
	for p := 0; p < len(out); {
		r := out[p]
		p++
		n := 0
		switch {
		case r >= textBase:
			if i := int(r-textBase) / 8; i < len(s.Items) && int(r-textBase)%8 == s.Items[i].Text-1 {
				n = s.Items[i].Pad
			}
		case r >= strayBase:
			n = s.pad(int(r - strayBase))
		case r >= stopBase:
			n = s.pad(int(r-stopBase) + 1)
		case r >= startBase:
			n = s.pad(int(r - startBase))
		}
		k := 0
		for p < len(out) && out[p] == padRune {
			k++
			p++
		}
		if k != n {
			e.Fail("garbage", "%s: %d runes after %U, want %d: %s", what, k, r, n, s.show(out))
		}
		short = append(short, r)
	}
	return short
}

func (s *attrScn) textOf(i int) []rune {
	var out []rune
	for k := 0; k < s.Items[i].Text; k++ {
		out = append(out, rune(textBase+i*8+k))
	}
	for k := 0; k < s.Items[i].Pad && len(out) > 0; k++ {
		out = append(out, padRune)
	}
	return out
}

// stopsOf tells which item opened what each item closes.
func (s *attrScn) pairing() (closes []int, contexts [][]int) {
	var stack []int
	for i, it := range s.Items {
		if it.Start {
			stack = append(stack, s.label(i))
		}
		contexts = append(contexts, append([]int{}, stack...))
		c := -1
		if it.Stop {
			if len(stack) == 0 {
				Invalid("not well nested")
			}
			c = stack[len(stack)-1] // its label
			stack = stack[:len(stack)-1]
		} else if it.Stray && len(stack) > 0 {
			Invalid("stray stop inside a context")
		}
		closes = append(closes, c)
	}
	if len(stack) > 0 {
		Invalid("not well nested")
	}
	return closes, contexts
}

func (s *attrScn) state(e *Env, closes []int) *attributes.State {
	st := attributes.NewState()
	push := st.Push
	if s.Own {
		push = func(a attributes.Renderer) {
			if a == nil {
				st.Push(nil)
				return
			}
			st.Push(&ownRenderer{Renderer: a})
		}
	}
	for i, it := range s.Items {
		if i > 0 && i == s.Early {
			// what is there so far is rendered
			k := newWalker(e, st, attrWalk{First: i%2 == 0})
			for b := 0; b < i; b++ {
				k.w.Breaks = append(k.w.Breaks, b)
			}
			for k.step() {
			}
		}
		if it.Nil {
			st.Push(nil)
		}
		var start, stop []rune
		if it.Start {
			start = s.startOf(i)
		}
		if it.Stop {
			stop = s.stopOf(closes[i])
		} else if it.Stray {
			stop = s.strayOf(i)
		}
		if it.Late && stop != nil {
			a := attributes.New(s.textOf(i), start, nil)
			push(a)
			a.SetStop(stop)
		} else {
			push(attributes.New(s.textOf(i), start, stop))
		}
	}
	return st
}

// walker renders a state step by step, the way the line breaker does.
type walker struct {
	w     attrWalk
	it    *attributes.StateIterator
	out   *sink
	rw    runesio.Writer
	i     int
	nb    int
	begun bool
	done  bool
}

const lineEnd = '\n'

func newWalker(e *Env, st *attributes.State, w attrWalk) *walker {
	k := &walker{w: w, out: &sink{e: e, script: w.Script}, i: -1}
	k.rw = runesio.AsRunesWriter(k.out)
	if w.First {
		k.it = st.First()
	} else {
		k.it = st.Iterator()
	}
	return k
}

func (k *walker) item() {
	item := k.it.Item()
	if k.w.Group {
		rs := attributes.Renderers{nil, item}
		if k.i%3 == 0 {
			rs.Start(k.rw)
			if len(item.Runes()) > 0 {
				_, _ = k.rw.WriteRunes(item.Runes())
			}
			rs.Stop(k.rw)
		} else {
			rs.Render(k.rw)
		}
	} else {
		item.Render(k.rw)
	}
	for k.nb < len(k.w.Breaks) && k.w.Breaks[k.nb] == k.i {
		k.nb++
		k.it.EndOfLine(k.rw)
		_, _ = k.rw.WriteRune(lineEnd)
		k.it.StartOfLine(k.rw)
	}
}

// step renders one more item; it tells whether there may be more. A walk during which the sink panics is abandoned.
func (k *walker) step() (more bool) {
	if survive(func() { more = k.advance() }) {
		k.done = true
		return false
	}
	return more
}

func (k *walker) advance() bool {
	if k.done {
		return false
	}
	if !k.begun {
		k.begun = true
		if k.w.First {
			k.i++
			if k.it.Item() != nil {
				k.item()
			}
			return true
		}
		k.it.StartOfLine(k.rw) // before anything: nothing to restore
		for n := 0; n < k.w.Before; n++ {
			k.it.EndOfLine(k.rw)
			_, _ = k.rw.WriteRune(lineEnd)
			k.it.StartOfLine(k.rw)
		}
	}
	if !k.it.Next() {
		k.done = true
		for n := 0; n < k.w.After; n++ {
			k.it.EndOfLine(k.rw)
			_, _ = k.rw.WriteRune(lineEnd)
			k.it.StartOfLine(k.rw)
		}
		if k.w.After > 1 && (k.it.Next() || k.it.Item() != nil) {
			k.out.e.Fail("past-the-end", "there is an item after the last one")
		}
		return false
	}
	k.i++
	k.item()
	return true
}

// checkOutput is the oracle: contexts of each text, contexts closed at the end of each line.
func (s *attrScn) checkOutput(e *Env, what string, out []rune, contexts [][]int) {
	var stack []int
	var texts []rune
	line := 0
	out = s.unpad(e, what, out)
	strays := map[rune]bool{}
	show := func() string { return s.show(out) }
	for _, r := range out {
		switch {
		case r == lineEnd:
			if len(stack) > 0 {
				e.Fail("open-at-end-of-line", "%s: contexts %v are open at the end of line %d: %s", what, stack, line, show())
			}
			line++
		case r >= textBase:
			i := int(r-textBase) / 8
			if i >= len(contexts) {
				e.Fail("garbage", "%s: %s", what, show())
			}
			if fmt.Sprint(stack) != fmt.Sprint(contexts[i]) {
				e.Fail("wrong-contexts", "%s: text of item %d is shown in contexts %v, want %v: %s", what, i, stack, contexts[i], show())
			}
			texts = append(texts, r)
		case r >= strayBase:
			if strays[r] { // closes nothing
				e.Fail("stray-repeated", "%s: a stop that closes nothing comes again: %s", what, show())
			}
			strays[r] = true
		case r >= stopBase:
			k := int(r - stopBase)
			if len(stack) == 0 || stack[len(stack)-1] != k {
				e.Fail("wrong-stop", "%s: the stop of context %d comes while %v are open: %s", what, k, stack, show())
			}
			stack = stack[:len(stack)-1]
		case r >= startBase:
			stack = append(stack, int(r-startBase))
		default:
			e.Fail("garbage", "%s: %s", what, show())
		}
	}
	if len(stack) > 0 {
		e.Fail("open-at-end-of-line", "%s: contexts %v are open at the end: %s", what, stack, show())
	}
	var want []rune
	for i := range s.Items {
		want = append(want, s.textOf(i)[:s.Items[i].Text]...)
	}
	if !runesEq(texts, want) {
		e.Fail("wrong-text", "%s: the texts are not all there, once, in order: %s", what, show())
	}
}

func (s *attrScn) show(out []rune) string {
	var b strings.Builder
	for _, r := range out {
		switch {
		case r == lineEnd:
			b.WriteString(" / ")
		case r >= textBase:
			fmt.Fprintf(&b, "t%d ", (r-textBase)/8)
		case r >= strayBase:
			fmt.Fprintf(&b, "stray%d ", r-strayBase)
		case r >= stopBase:
			fmt.Fprintf(&b, "stop%d ", r-stopBase)
		case r >= startBase:
			fmt.Fprintf(&b, "start%d ", r-startBase)
		case r == padRune:
			b.WriteByte('+')
		default:
			fmt.Fprintf(&b, "%q ", r)
		}
	}
	return b.String()
}

func (s *attrScn) validate() {
	for _, it := range s.Items {
		if it.Text < 0 || it.Text > 8 || it.Stop && it.Stray || it.Pad < 0 || it.Pad > 2000 {
			Invalid("item")
		}
	}
	for _, p := range s.Pads {
		if p < 0 || p > 2000 {
			Invalid("pads")
		}
	}
	if len(s.Items) > 4000 || s.Same < 0 || s.Early < 0 {
		Invalid("items")
	}
	for _, l := range s.Tasks {
		for _, w := range l {
			for i, b := range w.Breaks {
				if b < 0 || b >= len(s.Items) || i > 0 && b < w.Breaks[i-1] {
					Invalid("breaks")
				}
			}
			if w.Other < 0 || w.Before < 0 || w.Before > 10 || w.After < 0 || w.After > 10 {
				Invalid("other")
			}
		}
	}
}

func (s *attrScn) limit() int64 {
	n := int64(len(s.Items) + 5)
	walks := int64(2)
	breaks := int64(4)
	for _, l := range s.Tasks {
		for _, w := range l {
			walks++
			breaks += int64(len(w.Breaks) + w.Before + w.After)
		}
	}
	if s.Early > 0 {
		walks += 2 + walks
		breaks += int64(len(s.Items)) * walks
	}
	size := int64(1)
	for _, p := range s.Pads {
		size += int64(p)
	}
	for _, it := range s.Items {
		size += int64(it.Pad)
	}
	return 100000 + 400*n*n*walks + 400*breaks*n + 50*size*n*(walks+breaks)
}

// run walks in tasks; each task interleaves its walks as they say.
func (s *attrScn) run(e *Env, st *attributes.State, closes []int, done func(ti, wi int, k *walker)) {
	var fns []func()
	for ti, walks := range s.Tasks {
		ti, walks := ti, walks
		fns = append(fns, func() {
			var ks []*walker
			for _, w := range walks {
				if w.Own {
					ks = append(ks, newWalker(e, s.state(e, closes), w))
				} else {
					ks = append(ks, newWalker(e, st, w))
				}
			}
			for more := true; more; {
				more = false
				for i, k := range ks {
					for n := 0; n <= walks[i].Other; n++ {
						if k.step() {
							more = true
						}
					}
				}
			}
			for wi, k := range ks {
				done(ti, wi, k)
				e.Op(string(k.out.got))
			}
		})
	}
	e.Par(s.limit(), fns...)
}

func execP07(e *Env, scn interface{}) {
	s := scn.(*attrScn)
	s.validate()
	closes, contexts := s.pairing()
	simrt.ResetAll()
	var st *attributes.State
	e.Seq(s.limit(), func() { st = s.state(e, closes) })
	s.run(e, st, closes, func(ti, wi int, k *walker) {
		s.checkOutput(e, fmt.Sprintf("task %d, walk %d, breaks after %v", ti, wi, k.w.Breaks), []rune(string(k.out.got)), contexts)
	})
}

// subsequence tells whether the bytes of a are found in order in b.
func subsequence(a, b []byte) bool {
	i := 0
	for _, c := range b {
		if i < len(a) && a[i] == c {
			i++
		}
	}
	return i == len(a)
}

func (w attrWalk) key() string { return fmt.Sprint(w.Breaks, w.First, w.Before, w.After) }

func execP08(e *Env, scn interface{}) {
	s := scn.(*attrScn)
	s.validate()
	closes, contexts := s.pairing()
	_ = contexts
	simrt.ResetAll()
	var st *attributes.State
	// the fault-free output of each walk, from a state of its own
	full := map[string][]byte{}
	e.Seq(s.limit()*2, func() {
		for _, l := range s.Tasks {
			for _, w := range l {
				w.Script = nil
				key := w.key()
				if full[key] == nil {
					k := newWalker(e, s.state(e, closes), w)
					for k.step() {
					}
					full[key] = append([]byte{1}, k.out.got...)
				}
			}
		}
		st = s.state(e, closes)
	})
	s.run(e, st, closes, func(ti, wi int, k *walker) {
		want := full[k.w.key()][1:]
		got := k.out.got
		what := fmt.Sprintf("task %d, walk %d, breaks after %v, sink %v", ti, wi, k.w.Breaks, k.w.Script)
		faulty := false
		for _, st := range k.w.Script {
			faulty = faulty || st.N >= 0 || st.Err || st.Panic
		}
		if !faulty {
			if string(got) != string(want) {
				e.Fail("state-altered", "%s: a working sink gets %s, want %s", what, s.show([]rune(string(got))), s.show([]rune(string(want))))
			}
			return
		}
		if !subsequence(got, want) {
			e.Fail("not-a-subsequence", "%s: the sink accepted %q, the fault-free output is %q", what, got, want)
		}
		seen := map[rune]bool{}
		for _, r := range string(got) {
			if r >= textBase {
				if seen[r] {
					e.Fail("repeated", "%s: a text is repeated: %s", what, s.show([]rune(string(got))))
				}
				seen[r] = true
			}
		}
	})
	// afterwards, to a working sink
	e.Seq(s.limit()*2, func() {
		for _, l := range s.Tasks {
			for _, w := range l {
				w.Script = nil
				k := newWalker(e, st, w)
				for k.step() {
				}
				if want := full[w.key()][1:]; string(k.out.got) != string(want) {
					e.Fail("state-altered", "rendered again after the failures, breaks after %v: %s, want %s", w.Breaks, s.show([]rune(string(k.out.got))), s.show([]rune(string(want))))
				}
			}
		}
	})
}

func init() {
	props["P07"] = &Prop{Gen: func(r *Rand) interface{} { return genAttrs(r, false) }, New: func() interface{} { return &attrScn{} }, Exec: execP07, Tasks: true}
	props["P08"] = &Prop{Gen: func(r *Rand) interface{} { return genAttrs(r, true) }, New: func() interface{} { return &attrScn{} }, Exec: execP08, Tasks: true}
}
