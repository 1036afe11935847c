package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/fredbi/go-typeset/zsim/gen/build_tables"
	"github.com/fredbi/go-typeset/zsim/gen/strip_comments"
	"github.com/fredbi/go-typeset/zsim/gshim/gworld"
	"github.com/fredbi/go-typeset/zsim/simrt"
)

// attempt is one run of a generator.
type attempt struct {
	Faults []gworld.Fault    `json:"faults,omitempty"`
	Net    []gworld.NetFault `json:"net,omitempty"`
	Chunk  int               `json:"chunk,omitempty"`
	Edits  map[string]string `json:"edits,omitempty"` // sources that changed before this run
}

// runGenerator runs a process to its end; it tells whether it reported success.
func runGenerator(e *Env, w *gworld.World, limit int64, main func()) (ok bool, how string) {
	gworld.W = w
	w.Boot()
	simrt.ResetAll()
	simrt.OnTaskPanic = func(v interface{}) bool {
		w.Panicked = fmt.Sprint(v)
		w.End()
		return true
	}
	returned := false
	e.Seq(limit, func() {
		if p := Catch(main); p != nil {
			w.Panicked = fmt.Sprint(p)
		}
		returned = true
	})
	w.End()
	simrt.Reap() // goroutines end with their process
	switch {
	case w.Crashed:
		how = "crashed"
	case w.Exited:
		ok, how = w.Code == 0, fmt.Sprintf("exited with %d", w.Code)
	case w.Panicked != "":
		how = "panicked: " + w.Panicked
	case !returned:
		how = "ended its main goroutine" // the runtime reports that, sooner or later
	default:
		ok, how = true, "returned"
	}
	switch {
	case w.Crashed:
		e.Probe("crashed-attempt")
	case ok:
		e.Probe("successful-attempt")
	default:
		e.Probe("failed-attempt")
	}
	e.Op(how)
	return ok, how
}

// ---- P17

type stripScn struct {
	Sources  map[string]string `json:"sources"`         // below tex/
	Outputs  map[string]string `json:"outputs"`         // found at the start
	Links    map[string]string `json:"links,omitempty"` // sources which are links to these files
	Attempts []attempt         `json:"attempts"`
}

func genTeX(r *Rand, n int) string {
	var b strings.Builder
	nl := "\n"
	if r.Chance(0.1) {
		nl = "\r\n"
	}
	odd := r.Chance(0.15)
	for i := 0; i < n; i++ {
		switch {
		case r.Chance(0.25):
			b.WriteString("% " + r.Word("abc %\\{}", r.Intn(20)))
		case r.Chance(0.1):
		case r.Chance(0.05):
			b.WriteString(strings.Repeat(" ", 1+r.Intn(3)))
		default:
			if r.Chance(0.1) {
				b.WriteString("  ")
			}
			if r.Chance(0.1) {
				b.WriteString(r.Pick([]string{`\patterns{`, `\hyphenation{`, "}", `\message{x}`}))
			} else {
				for k, m := 0, 1+r.Intn(4); k < m; k++ {
					if k > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(r.Word("abcdé.12-", 1+r.Intn(8)))
				}
			}
			if r.Chance(0.3) {
				b.WriteString(r.Word(" \t", r.Intn(3)) + "%" + r.Word("xyz% é", r.Intn(12)))
			}
			if odd && r.Chance(0.2) {
				// spaces other than blanks and tabs, bytes which are no text, carriage returns within
				b.WriteString(r.Pick([]string{"\f", "\v", "\u00a0", "\u0085", "\u2003", "\x00", "\xff", "a\xc3", "\rb", "\ufeff", "%", "\\% c"}))
			}
			if r.Chance(0.02) {
				b.WriteString(strings.Repeat("y", r.PickInt(3000+r.Intn(6000), 4090+r.Intn(8), 1020+r.Intn(8), 32760+r.Intn(10), 500)))
			}
		}
		if i < n-1 || r.Chance(0.8) {
			b.WriteString(nl)
		}
	}
	return b.String()
}

func stripped(src string) string {
	var b strings.Builder
	lines := strings.Split(src, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for _, l := range lines {
		l = strings.TrimSuffix(l, "\r")
		if l == "" || l[0] == '%' {
			continue
		}
		if i := strings.IndexByte(l, '%'); i > 0 {
			l = l[:i]
		}
		b.WriteString(strings.TrimSpace(l) + "\n")
	}
	return b.String()
}

func genP17(r *Rand) interface{} {
	s := &stripScn{Sources: map[string]string{}, Outputs: map[string]string{}}
	names := []string{"a.tex", "b.tex", "hyph-x.tex", "sub/c.tex", "z.tex", "README", "notes.txt", "sub/deep/d.tex", "dir.tex/e.tex", "A.TEX"}
	var have []string
	lines := r.PickInt(3, 10, 40, 300)
	pHave := 0.4
	if r.Chance(0.06) {
		// many files
		for i, n := 0, r.PickInt(12, 20, 40, 70, 140); i < n; i++ {
			d := r.Pick([]string{"", "", "more/", "more/and/", "sub/", "sub/deep/"})
			names = append(names, fmt.Sprintf("%sf%d.tex", d, i))
		}
		lines = r.PickInt(1, 3, 10)
		pHave = 0.9
	} else if r.Chance(0.02) {
		lines = r.PickInt(1000, 1000, 3000, 3000, 6000, 6000, 6000, 60000) // files larger than any buffer
		pHave = 0.1
	}
	for _, n := range names {
		if len(have) == 0 || r.Chance(pHave) {
			have = append(have, n)
			s.Sources[n] = genTeX(r, r.Intn(lines+1))
			if r.Chance(0.4) {
				s.Outputs[path.Base(n)] = r.Pick([]string{"", "older\n", stripped(s.Sources[n]), stripped(s.Sources[n]) + "older\n", strings.Repeat("much older\n", r.PickInt(10, 100, 1000, 10000))})
			}
		}
	}
	if r.Chance(0.25) {
		s.Links = map[string]string{}
		for _, n := range have {
			if r.Chance(0.4) {
				s.Links[n] = r.Pick([]string{"texmf/", "texmf/deep/", "tex-src/"}) + r.Pick([]string{path.Base(n), "o-" + path.Base(n), path.Base(n) + ".orig"})
			}
		}
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		a := attempt{}
		if r.Chance(0.5) {
			a.Chunk = r.PickInt(1, 7, 100, 1000)
			if lines > 40 {
				a.Chunk = r.PickInt(64, 500, 4096)
			}
		}
		if i > 0 && r.Chance(0.3) || r.Chance(0.1) {
			n := r.Pick(have)
			if r.Chance(0.3) {
				n = r.Pick(names) // perhaps a new file
			}
			a.Edits = map[string]string{n: genTeX(r, r.Intn(lines+1))}
		}
		for k, m := 0, 1+r.Intn(2); k < m; k++ {
			f := gworld.Fault{Op: r.Pick([]string{"open", "create", "read", "read", "write", "write", "close", "readdir", "crash", "crash"}), Sticky: r.Chance(0.25)}
			if r.Chance(0.5) {
				f.Err = r.Intn(simrt.ErrKinds)
			}
			switch f.Op {
			case "open", "create", "close", "readdir":
				f.Nth = 1 + r.Intn(4)
			default:
				f.Nth = 1 + r.Intn(r.PickInt(5, 30, 200))
			}
			if r.Chance(0.6) {
				f.Arg = r.Intn(20)
			}
			if f.Op == "crash" {
				f.Sticky = false
			}
			a.Faults = append(a.Faults, f)
		}
		s.Attempts = append(s.Attempts, a)
	}
	return s
}

func execP17(e *Env, scn interface{}) {
	s := scn.(*stripScn)
	size := 0
	bases, added := map[string]bool{}, map[string]bool{}
	checkNames := func(m map[string]string) {
		for n, c := range m {
			if path.Clean("/"+n) != "/"+n || strings.Contains(n, "..") {
				Invalid("name")
			}
			for _, l := range strings.Split(c, "\n") {
				if len(l) > 60000 {
					Invalid("line too long")
				}
			}
			size += len(c)
		}
	}
	checkNames(s.Sources)
	for n := range s.Sources {
		if bases[path.Base(n)] {
			Invalid("same name twice")
		}
		bases[path.Base(n)] = true
	}
	checkNames(s.Outputs)
	w := gworld.New(e.Fired)
	w.Nodes["/tex"] = &gworld.Node{Dir: true}
	put := func(n, c string) {
		if to := s.Links[n]; to != "" {
			w.PutLink("tex/"+n, to)
			w.Put(to, c)
			return
		}
		w.Put("tex/"+n, c)
	}
	targets := map[string]bool{}
	for _, to := range s.Links {
		if clean := path.Clean("/" + to); clean != "/"+to || strings.HasPrefix(clean, "/tex/") || path.Dir(clean) == "/" || targets[clean] {
			Invalid("link")
		}
		targets["/"+to] = true
	}
	for n, c := range s.Sources {
		put(n, c)
	}
	for n, c := range s.Outputs {
		if n == "tex" {
			Invalid("name")
		}
		w.Put(n, c)
	}
	for _, a := range s.Attempts {
		checkNames(a.Edits)
	}
	limit := int64(1e6) + int64(size+1000)*2000
	runs := append(append([]attempt{}, s.Attempts...), attempt{})
	for i, a := range runs {
		for n, c := range a.Edits {
			if !bases[path.Base(n)] {
				e.Probe("new-source")
				bases[path.Base(n)] = true
				added[n] = true
			} else if _, ok := s.Sources[n]; !ok && !added[n] {
				Invalid("same name twice")
			}
			put(n, c)
		}
		w.Faults, w.Chunk = a.Faults, a.Chunk
		simrt.Stalls(i < len(runs)-1)
		ok, how := runGenerator(e, w, limit, strip_comments.Main)
		what := fmt.Sprintf("run %d of the generator (faults %+v) %s", i+1, a.Faults, how)
		if !ok {
			if i == len(runs)-1 {
				e.Fail("not-recovered", "%s although the disk works", what)
			}
			continue
		}
		if len(w.Hits) > 0 {
			e.Fail("hidden-error", "%s although these operations failed: %v", what, w.Hits)
		}
		var keys []string
		for n := range w.Nodes {
			keys = append(keys, n)
		}
		sort.Strings(keys)
		for _, n := range keys {
			key := w.Resolve(n)
			node := w.Nodes[key]
			if node.Dir || !strings.HasPrefix(n, "/tex/") || !strings.HasSuffix(n, ".tex") {
				continue
			}
			got, there := w.Get(path.Base(n))
			want := stripped(string(node.Data))
			switch {
			case !there:
				e.Fail("missing-file", "%s without an output for %s", what, n)
			case got != want:
				e.Fail("wrong-file", "%s and %s is %q, want %q", what, path.Base(n), clip(got), clip(want))
			case w.ReadEnds[key] == 0:
				e.Fail("not-read", "%s but %s was not read to its end", what, n)
			}
		}
	}
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:200] + "..." + s[len(s)-200:]
	}
	return s
}

// ---- P18

type uRange struct {
	Lo    rune   `json:"lo"`
	Hi    rune   `json:"hi"`
	Class string `json:"class,omitempty"`
	Comb  bool   `json:"comb,omitempty"`
}

type tablesScn struct {
	Width    []uRange  `json:"width"`
	Emoji    []uRange  `json:"emoji"`
	Before   string    `json:"before"` // the tables at the start; none if empty
	Attempts []attempt `json:"attempts"`
	Tail     bool      `json:"tail"` // the pages end with a newline
	Pad      int       `json:"pad"`  // lines of comments
	Chunked  bool      `json:"chunked,omitempty"`
	Other    int       `json:"other,omitempty"` // each so many lines, one of another property, blank or a comment
}

const (
	widthURL  = "https://unicode.org/Public/15.0.0/ucd/EastAsianWidth.txt"
	emojiURL  = "https://unicode.org/Public/15.0.0/ucd/emoji/emoji-data.txt"
	tableFile = "runes_tables.go"
)

func (u uRange) points() string {
	if u.Lo == u.Hi {
		return fmt.Sprintf("%04X", u.Lo)
	}
	return fmt.Sprintf("%04X..%04X", u.Lo, u.Hi)
}

func comment(k int) string {
	c := fmt.Sprintf("# comment %d", k)
	if k%3 == 0 {
		c += strings.Repeat(" more", 40)
	}
	return c + "\n"
}

func (s *tablesScn) pages() map[string]string {
	var a, b strings.Builder
	a.WriteString("# EastAsianWidth-15.0.0.txt\n# Date: 2022-05-24, 17:40:20 GMT [KW, LI]\n#\n# @missing: 0000..10FFFF; N\n\n")
	for i, u := range s.Width {
		name := "LETTER"
		if u.Comb {
			name = "COMBINING MARK"
		}
		if i == len(s.Width)/2 {
			for k := 0; k < s.Pad; k++ {
				a.WriteString(comment(k))
			}
		}
		if s.Other > 0 && i%s.Other == s.Other-1 {
			a.WriteString([]string{"\n", "# COMBINING 0300..036F;W  # not a range\n", "#\n"}[i%3])
		}
		fmt.Fprintf(&a, "%s;%s  # Lo    [%d] SOME %s %d", u.points(), u.Class, u.Hi-u.Lo+1, name, i)
		if i < len(s.Width)-1 || s.Tail {
			a.WriteByte('\n')
		}
	}
	b.WriteString("# emoji-data.txt\n# Date: 2022-08-02, 00:26:10 GMT\n#\n\n0023          ; Emoji                # E0.0   [1] (#)       hash sign\n1F1E6..1F1FF  ; Emoji_Component      # E0.0  [26] regional indicators\n")
	for i, u := range s.Emoji {
		if i == len(s.Emoji)/2 {
			for k := 0; k < s.Pad; k++ {
				b.WriteString(comment(k))
			}
		}
		if s.Other > 0 && i%s.Other == s.Other-1 {
			name := []string{"Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Modifier_Base", "Emoji_Component"}[i/s.Other%5]
			fmt.Fprintf(&b, "%-14s; %-21s# E0.6   [%d] (x)       other %d\n", uRange{Lo: u.Lo + 0x30000, Hi: u.Hi + 0x30000}.points(), name, u.Hi-u.Lo+1, i)
			if i%2 == 0 {
				fmt.Fprintf(&b, "\n# Total elements: %d\n\n# ================================================\n\n", i)
			}
		}
		fmt.Fprintf(&b, "%-14s; Extended_Pictographic# E0.6   [%d] (x)       sign %d", u.points(), u.Hi-u.Lo+1, i)
		if i < len(s.Emoji)-1 || s.Tail {
			b.WriteByte('\n')
		}
	}
	if s.Tail {
		a.WriteString("\n# EOF\n")
		b.WriteString("\n# Total elements: 3537\n\n#EOF\n")
	}
	return map[string]string{widthURL: a.String(), emojiURL: b.String()}
}

// merged ranges: sorted, adjacent ones joined.
func merged(in []uRange) string {
	in = append([]uRange{}, in...)
	sort.Slice(in, func(i, j int) bool { return in[i].Lo < in[j].Lo })
	var out []uRange
	for _, u := range in {
		if n := len(out); n > 0 && out[n-1].Hi+1 == u.Lo {
			out[n-1].Hi = u.Hi
			continue
		}
		out = append(out, uRange{Lo: u.Lo, Hi: u.Hi})
	}
	var b strings.Builder
	for _, u := range out {
		fmt.Fprintf(&b, "%04X-%04X ", u.Lo, u.Hi)
	}
	return b.String()
}

func (s *tablesScn) expected() map[string]string {
	sel := map[string][]uRange{"combining": nil, "doublewidth": nil, "ambiguous": nil, "narrow": nil, "neutral": nil, "emoji": nil}
	for _, u := range s.Width {
		if u.Comb {
			sel["combining"] = append(sel["combining"], u)
		}
		switch u.Class {
		case "W", "F":
			sel["doublewidth"] = append(sel["doublewidth"], u)
		case "A":
			sel["ambiguous"] = append(sel["ambiguous"], u)
		case "Na":
			sel["narrow"] = append(sel["narrow"], u)
		case "N":
			sel["neutral"] = append(sel["neutral"], u)
		}
	}
	for _, u := range s.Emoji {
		if u.Hi >= 0xff { // letter-like signs are no emojis in these tables
			sel["emoji"] = append(sel["emoji"], u)
		}
	}
	out := map[string]string{}
	for k, v := range sel {
		out[k] = merged(v)
	}
	return out
}

// parseTables reads generated tables.
func parseTables(src string) (map[string]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), tableFile, src, 0)
	if err != nil {
		return nil, err
	}
	if f.Name.Name != "runes" {
		return nil, fmt.Errorf("package %s", f.Name.Name)
	}
	out := map[string]string{}
	num := func(e ast.Expr) rune {
		if l, ok := e.(*ast.BasicLit); ok {
			if v, err := strconv.ParseInt(l.Value, 0, 32); err == nil {
				return rune(v)
			}
		}
		return -1
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if i >= len(vs.Values) {
					continue
				}
				cl, ok := vs.Values[i].(*ast.CompositeLit)
				if !ok {
					continue
				}
				var rs []uRange
				for _, x := range cl.Elts {
					e, ok := x.(*ast.CompositeLit)
					if !ok || len(e.Elts) != 2 {
						return nil, fmt.Errorf("table %s has an odd element", n.Name)
					}
					rs = append(rs, uRange{Lo: num(e.Elts[0]), Hi: num(e.Elts[1])})
				}
				for k := 1; k < len(rs); k++ {
					if rs[k].Lo <= rs[k-1].Hi {
						return nil, fmt.Errorf("table %s is not sorted", n.Name)
					}
				}
				out[n.Name] = merged(rs)
			}
		}
	}
	return out, nil
}

func genP18(r *Rand) interface{} {
	s := &tablesScn{Tail: r.Chance(0.8)}
	n := r.PickInt(1, 5, 20, 120, 400)
	at := rune(r.Intn(0x20))
	for i, m := 0, 1+r.Intn(n); i < m; i++ {
		u := uRange{Lo: at, Class: r.Pick([]string{"N", "Na", "W", "F", "A", "H", "N", "W"}), Comb: r.Chance(0.15)}
		u.Hi = u.Lo
		if r.Chance(0.6) {
			u.Hi += rune(r.Intn(200))
		}
		s.Width = append(s.Width, u)
		at = u.Hi + 1
		if r.Chance(0.5) {
			at += rune(r.Intn(300))
		}
		if at > 0x10f000 {
			break
		}
		if at < 0xc0000 && r.Chance(0.01) {
			at = at&^0xffff + 0x10000*rune(1+r.Intn(3)) // the next planes
		}
	}
	if at < 0xe0000 && r.Chance(0.2) {
		// to the end, as in the real file
		for _, u := range []uRange{{Lo: 0xe0100, Hi: 0xe01ef}, {Lo: 0xf0000, Hi: 0xffffd}, {Lo: 0x100000, Hi: 0x10fffd}} {
			u.Class, u.Comb = r.Pick([]string{"A", "A", "W", "N"}), r.Chance(0.15)
			s.Width = append(s.Width, u)
		}
	}
	at = 0xa9
	for i, m := 0, 1+r.Intn(n); i < m; i++ {
		u := uRange{Lo: at, Hi: at}
		if at > 0xff && r.Chance(0.5) {
			u.Hi += rune(r.Intn(20))
		}
		s.Emoji = append(s.Emoji, u)
		at = u.Hi + 1
		if at < 0x100 || r.Chance(0.5) {
			at += 0x100 + rune(r.Intn(200))
		}
	}
	if r.Chance(0.9) {
		s.Before = "// previous tables\npackage runes\n" + strings.Repeat("\nvar older = table{}\n", r.PickInt(0, 0, 1, 20, 500, 5000))
	}
	if r.Chance(0.06) {
		s.Pad = r.PickInt(10, 100, 500, 5000, 20000, 60000)
	}
	s.Chunked = r.Chance(0.3)
	if r.Chance(0.4) {
		s.Other = r.PickInt(1, 2, 3, 10, 50)
	}
	size := 40*n + 75*s.Pad
	for i, m := 0, r.Intn(4); i < m; i++ {
		a := attempt{}
		for k, q := 0, r.Intn(3); k < q; k++ {
			f := gworld.NetFault{Op: r.Pick([]string{"refuse", "status", "status", "cut", "cut", "cut", "reset", "chunk", "empty", "late"}), Nth: 1 + r.Intn(2), Sticky: r.Chance(0.2)}
			if r.Chance(0.5) {
				f.Err = r.Intn(simrt.ErrKinds)
			}
			switch f.Op {
			case "status":
				f.Arg = r.PickInt(301, 403, 404, 404, 429, 500, 502, 503, 503, 206, 206, 206, 202, 204)
			case "cut", "reset", "empty":
				f.Arg = r.Intn(size + 200)
				if r.Chance(0.1) {
					f.Arg = 1 << 20
				}
			case "chunk":
				f.Arg = r.PickInt(1, 3, 50, 1000)
				if s.Pad > 1000 {
					f.Arg = r.PickInt(50, 1000, 5000)
				}
			}
			a.Net = append(a.Net, f)
		}
		if r.Chance(0.3) {
			f := gworld.Fault{Op: r.Pick([]string{"create", "write", "close", "crash", "crash"}), Nth: 1 + r.Intn(2), Arg: r.Intn(size)}
			if r.Chance(0.5) {
				f.Err = r.Intn(simrt.ErrKinds)
			}
			if f.Op == "crash" {
				f.Nth = 1 + r.Intn(4)
			}
			a.Faults = append(a.Faults, f)
		}
		s.Attempts = append(s.Attempts, a)
	}
	return s
}

func execP18(e *Env, scn interface{}) {
	s := scn.(*tablesScn)
	ordered := func(us []uRange) {
		for i, u := range us {
			if u.Lo > u.Hi || i > 0 && u.Lo <= us[i-1].Hi || u.Lo < 0 {
				Invalid("ranges")
			}
		}
	}
	ordered(s.Width)
	ordered(s.Emoji)
	for _, u := range s.Width {
		if u.Class == "" {
			Invalid("class")
		}
	}
	for _, a := range s.Attempts {
		for _, f := range a.Net {
			if f.Op == "status" && (f.Arg < 201 || f.Arg > 599) {
				Invalid("status")
			}
		}
	}
	w := gworld.New(e.Fired)
	w.Pages, w.Chunked = s.pages(), s.Chunked
	if s.Before != "" {
		w.Put(tableFile, s.Before)
	}
	want := s.expected()
	if s.Pad < 0 || s.Pad > 100000 {
		Invalid("comments")
	}
	limit := int64(1e6) + int64(len(s.Width)+len(s.Emoji)+10)*int64(len(s.Width)+len(s.Emoji)+1000)*1000 + int64(s.Pad)*40000
	runs := append(append([]attempt{}, s.Attempts...), attempt{})
	for i, a := range runs {
		before, had := w.Get(tableFile)
		w.Faults, w.NetFaults, w.Chunk = a.Faults, a.Net, a.Chunk
		simrt.Stalls(i < len(runs)-1)
		ok, how := runGenerator(e, w, limit, build_tables.Main)
		after, has := w.Get(tableFile)
		what := fmt.Sprintf("run %d of the generator (network %+v, disk %+v) %s", i+1, a.Net, a.Faults, how)
		if len(w.NetHits) > 0 {
			if ok {
				e.Fail("hidden-error", "%s although a download failed: %v", what, w.NetHits)
			}
			if had != has || before != after {
				e.Fail("tables-touched", "%s after a failed download (%v), and the tables became %q", what, w.NetHits, clip(after))
			}
			e.Probe("tables-kept")
		}
		if !ok {
			if i == len(runs)-1 {
				e.Fail("not-recovered", "%s although everything works", what)
			}
			continue
		}
		if len(w.Hits) > 0 {
			e.Fail("hidden-error", "%s although these operations failed: %v", what, w.Hits)
		}
		got, err := parseTables(after)
		if err != nil {
			e.Fail("wrong-tables", "%s and the tables cannot be read: %v: %q", what, err, clip(after))
		}
		for _, k := range []string{"combining", "doublewidth", "ambiguous", "narrow", "neutral", "emoji"} {
			g, ok := got[k]
			if !ok {
				e.Fail("wrong-tables", "%s and table %s is missing", what, k)
			}
			if g != want[k] {
				e.Fail("wrong-tables", "%s and table %s holds %s, want %s", what, k, clip(g), clip(want[k]))
			}
		}
	}
}

func init() {
	props["P17"] = &Prop{Gen: genP17, New: func() interface{} { return &stripScn{} }, Exec: execP17}
	props["P18"] = &Prop{Gen: genP18, New: func() interface{} { return &tablesScn{} }, Exec: execP18}
}
