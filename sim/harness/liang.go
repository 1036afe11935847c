package main

import (
	"strings"
	"unicode"
)

// refDict is the reference model of rules: written from the TeX format and Liang's algorithm.
type refDict struct {
	patterns   map[string][]int
	exceptions map[string][]int
	longest    int
}

func parseRules(text string) *refDict {
	d := &refDict{patterns: map[string][]int{}, exceptions: map[string][]int{}}
	inExceptions := false
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSuffix(line, "\r")
		switch {
		case strings.HasPrefix(line, `\hyphenation{`):
			inExceptions = true
		case line == "", line[0] == '%', line[0] == '\\', line[0] == '}':
		case inExceptions:
			var pos []int
			var word []rune
			pending := 0
			for _, r := range strings.TrimSuffix(line, "}") {
				if r == '-' {
					pending = 1
					continue
				}
				pos = append(pos, pending)
				pending = 0
				word = append(word, unicode.ToLower(r))
			}
			d.exceptions[string(word)] = pos
		default:
			for _, p := range strings.Fields(line) {
				var val []int
				var letters []rune
				pending := 0
				for _, r := range p {
					if r >= '0' && r <= '9' {
						pending = int(r - '0')
						continue
					}
					val = append(val, pending)
					pending = 0
					letters = append(letters, unicode.ToLower(r))
				}
				val = append(val, pending)
				d.patterns[string(letters)] = val
				if len(letters) > d.longest {
					d.longest = len(letters)
				}
			}
		}
	}
	return d
}

type hyphOpts struct {
	MinLength int `json:"minLength"`
	MinLeft   int `json:"minLeft"`
	MinRight  int `json:"minRight"`
}

func isHyphenRune(r rune) bool { return unicode.Is(unicode.Hyphen, r) }

// breakWord is what a lone caller gets from complete rules.
func (d *refDict) breakWord(word []rune, o hyphOpts) [][]rune {
	n := len(word)
	for _, r := range word {
		if isHyphenRune(r) {
			return [][]rune{word}
		}
	}
	if n < o.MinLength {
		return [][]rune{word}
	}
	lower := make([]rune, n)
	for i, r := range word {
		lower[i] = unicode.ToLower(r)
	}
	allowed := make([]bool, n+1)
	if exc, ok := d.exceptions[string(lower)]; ok {
		for i, v := range exc {
			allowed[i] = v%2 == 1
		}
	} else {
		w := append(append([]rune{'.'}, lower...), '.')
		val := make([]int, len(w)+1)
		for i := range w {
			for j := i + 1; j <= len(w) && j-i <= d.longest; j++ {
				for k, v := range d.patterns[string(w[i:j])] {
					if v > val[i+k] {
						val[i+k] = v
					}
				}
			}
		}
		for k := 1; k < n; k++ {
			allowed[k] = val[k+1]%2 == 1
		}
	}
	var parts [][]rune
	prev := 0
	for k := 1; k < n; k++ {
		if allowed[k] && k-prev >= o.MinLeft && n-k >= o.MinRight {
			parts = append(parts, word[prev:k])
			prev = k
		}
	}
	return append(parts, word[prev:])
}

// genRules draws a small rules file over a small alphabet.
func genRules(r *Rand, alphabet string, tag string, patterns, exceptions int) string {
	var b strings.Builder
	b.WriteString("\\message{" + tag + "}\n")
	if r.Chance(0.5) {
		b.WriteString("% comment\n")
	}
	remarks := r.Chance(0.2)
	digit := func() byte {
		if r.Chance(0.1) {
			return byte('0' + r.Intn(10))
		}
		return byte('1' + r.Intn(5))
	}
	blank := " "
	if r.Chance(0.1) {
		blank = []string{"\t", "  ", "     "}[r.Intn(3)]
	}
	b.WriteString("\\patterns{\n")
	perLine := 1 + r.Intn(4)
	seen := map[string]bool{}
	for i := 0; i < patterns; i++ {
		n := 1 + r.Intn(3)
		if r.Chance(0.1) {
			n = 4 + r.Intn(3)
			if r.Chance(0.1) {
				n = 7 + r.Intn(30)
			}
		}
		letters := []rune(r.Word(alphabet, n))
		if seen[string(letters)] {
			continue // one value per pattern
		}
		var p strings.Builder
		dot := r.Intn(12)
		key := string(letters)
		if dot == 0 {
			p.WriteByte('.')
			key = "." + key
		}
		if dot == 1 {
			key += "."
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		any := false
		for j, l := range letters {
			if r.Chance(0.45) && !(j == 0 && dot == 0) {
				p.WriteByte(digit())
				any = true
			}
			p.WriteRune(l)
		}
		if !any || r.Chance(0.3) {
			p.WriteByte(digit())
		}
		if dot == 1 {
			p.WriteByte('.')
		}
		b.WriteString(p.String())
		if (i+1)%perLine == 0 {
			b.WriteString("\n")
			if remarks && r.Chance(0.2) {
				// commented out rules and blank lines
				switch r.Intn(3) {
				case 0:
					b.WriteString("% " + r.Word(alphabet, 1) + "1" + r.Word(alphabet, 2) + " 9" + r.Word(alphabet, 1) + "\n")
				case 1:
					b.WriteString("%" + r.Word(alphabet, 1) + "7" + r.Word(alphabet, 1) + "\n")
				default:
					b.WriteString("\n")
				}
			}
		} else {
			b.WriteString(blank)
		}
	}
	b.WriteString("\n}\n")
	if exceptions > 0 {
		b.WriteString("\\hyphenation{\n")
		for i := 0; i < exceptions; i++ {
			n := 4 + r.Intn(5)
			if r.Chance(0.08) {
				n = r.PickInt(10, 20, 40, 70) + r.Intn(30)
			}
			w := []rune(r.Word(alphabet, n))
			for j, l := range w {
				if j > 0 && r.Chance(0.4) {
					b.WriteByte('-')
				}
				b.WriteRune(l)
			}
			if i+1 < exceptions || r.Chance(0.7) {
				b.WriteString("\n")
			}
		}
		b.WriteString("}\n")
	}
	if r.Chance(0.1) {
		b.WriteString("\\endinput\n")
	}
	if r.Chance(0.2) {
		return strings.TrimSuffix(b.String(), "\n")
	}
	return b.String()
}
