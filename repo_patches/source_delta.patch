From 6021cf06354119379382ad27bb85ffb9f8bb98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 01/30] fix: restore runesio.AsRunesWriter

Package linebreak (and the tests of attributes and linebreak) call it, and do not compile without it.
---
 terminal/runes/runesio/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terminal/runes/runesio/writer.go b/terminal/runes/runesio/writer.go
index d44ac3a..3acc542 100644
--- a/terminal/runes/runesio/writer.go
+++ b/terminal/runes/runesio/writer.go
@@ -27,6 +27,11 @@ func NewWriter(w io.Writer) Writer {
 	}
 }
 
+// AsRunesWriter is an alias for NewWriter.
+func AsRunesWriter(w io.Writer) Writer {
+	return NewWriter(w)
+}
+
 func (rw *runesWriter) WriteRune(r rune) (int, error) {
 	return rw.writeRune(r)
 }
-- 
2.43.0


From b97c58f8597e24d19d86cedec52966233fc824d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 02/30] fix: linebreak: make line breaks repeatable

The candidates of the fitness classes were inserted in the random iteration order of a map,
so that the same paragraph was broken differently from one call to the next.
---
 linebreak/knuth_plass.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 5180c8b..8affd3b 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -233,7 +233,9 @@ func (l *LineBreaker) mainLoop(index int) {
 func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates map[fitnessClass]*breakPoint) {
 	sum := l.sumFromNode(index)
 
-	for class, candidate := range candidates {
+	for class := fitnessClassZero; class <= fitnessClassThree; class++ {
+		candidate := candidates[class]
+
 		if candidate.totalDemerits >= maxDemerit || candidate.totalDemerits > lowestDemerits+l.demerits.fitness {
 			// skip default candidate
 			continue
-- 
2.43.0


From b33a6c3cbf48ccdfa4e7e2440c90add09e4ff033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 03/30] fix: linebreak: forget the attributes of the previous
 paragraph

The list of attributes was never reset: reusing a LineBreaker rendered the start and stop sequences
of earlier paragraphs into later ones.
---
 linebreak/linebreaker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 6a34641..4a98af1 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -78,6 +78,9 @@ func New(opts ...Option) *LineBreaker {
 //
 // TODO: move to [][]rune -> []rune
 func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {
+	// reset the attributes left by a previous paragraph
+	l.attrList = attributes.NewState()
+
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
 	l.nodes = l.leftAlignedNodes(tokens)
 
-- 
2.43.0


From 59bb77a8ea71a0e7cb829eebfd6f435c227d0155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 04/30] fix: linebreak: render soft hyphens only at hyphenation
 points

Soft hyphens were recognized by the value of their penalty: with WithHyphenPenalty set to 0, 200 or 400,
spurious hyphens were rendered after full words, explicit hyphens and punctuation marks.
---
 linebreak/knuth_plass_types.go | 19 ++++++++++++++-----
 linebreak/linebreaker.go       |  6 +++---
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/linebreak/knuth_plass_types.go b/linebreak/knuth_plass_types.go
index ee38301..6757cc2 100644
--- a/linebreak/knuth_plass_types.go
+++ b/linebreak/knuth_plass_types.go
@@ -8,11 +8,12 @@ import (
 
 type (
 	nodeT struct {
-		nodeType  nodeType
-		penalty   float64
-		flagged   bool
-		value     []rune
-		attribute attributes.Renderer // attributes such as color, italic, bold ...
+		nodeType   nodeType
+		penalty    float64
+		flagged    bool
+		softHyphen bool // a penalty at a hyphenation point
+		value      []rune
+		attribute  attributes.Renderer // attributes such as color, italic, bold ...
 
 		sums
 	}
@@ -129,6 +130,14 @@ func newPenalty(width float64, penalty float64, flagged bool) nodeT {
 	}
 }
 
+// newSoftHyphen is the flagged penalty incurred by breaking a word at a hyphenation point.
+func newSoftHyphen(width float64, penalty float64) nodeT {
+	node := newPenalty(width, penalty, flaggedPenalty)
+	node.softHyphen = true
+
+	return node
+}
+
 // newFitnessClass establish a coarse fitness classification according to the cost ratio.
 func newFitnessClass(ratio float64) fitnessClass {
 	switch {
diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 4a98af1..6e83002 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -180,7 +180,7 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-				if l.renderHyphens && node.penalty == l.hyphenPenalty && index == len(line.nodes)-1 {
+				if l.renderHyphens && node.softHyphen && index == len(line.nodes)-1 {
 					// render a soft hyphen node
 					_, _ = runesWriter.WriteRunes(hyphen)
 				}
@@ -299,14 +299,14 @@ func (l *LineBreaker) pushHyphen() []nodeT {
 			// ragged right:
 			newPenalty(noWidth, infinity, unflaggedPenalty),
 			newGlue(noWidth, l.glueStretch, noShrink),
-			newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
+			newSoftHyphen(l.hyphenWidth, l.hyphenPenalty),
 			newGlue(noWidth, -l.glueStretch, noShrink),
 		}
 	}
 
 	return []nodeT{
 		// when hyphens are not rendered (words are just broken), there is no width associated to the penalty
-		newPenalty(noWidth, l.hyphenPenalty, flaggedPenalty),
+		newSoftHyphen(noWidth, l.hyphenPenalty),
 	}
 }
 
-- 
2.43.0


From 3f00a26b4ef9792fb21473aa82701b8d5240ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 05/30] fix: linebreak: keep the escape sequences that come
 without text

A start or stop sequence with no text next to it in its token was dropped, e.g. in "total:<red> 5".
---
 linebreak/linebreaker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 6e83002..8207c21 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -283,6 +283,13 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				)
 			}
 		}
+
+		if !tokenState.isStarted && len(stripped.StartSequence)+len(stripped.StopSequence) > 0 {
+			// sequences without any text: keep them with an empty box
+			tokenState.Start(nil)
+			nodes = append(nodes, newBox(noWidth, nil, tokenState.Current()))
+		}
+
 		// add stop to the last renderer
 		tokenState.Stop()
 	}
-- 
2.43.0


From 71967cbd9c14fa1cc3b9ca7f9cc73fae9bd7e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 06/30] fix: attributes: a stop without a start closes nothing

The nesting level of the items that follow an unmatched stop sequence was wrong (negative),
so that line ends and starts rendered sequences of contexts which were not open.
---
 attributes/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attributes/state.go b/attributes/state.go
index 95c3965..946ee2f 100644
--- a/attributes/state.go
+++ b/attributes/state.go
@@ -42,7 +42,7 @@ func (s *State) Push(attr Renderer) {
 		attribute := current.Value.(Renderer)
 		currentLevel = attribute.Level()
 		hadStop := attribute.HasStop()
-		if hadStop {
+		if hadStop && currentLevel > 0 { // a stop without a start closes nothing
 			currentLevel--
 		}
 	}
-- 
2.43.0


From 874587e2cc973262e6988ea2ff0eaaf6b9942850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 07/30] fix: attributes: close and resume exactly the open
 contexts at line breaks

With nested contexts, only the innermost one was resumed on a new line, and contexts opened further down
were stopped at the end of a line.
---
 attributes/state.go | 78 ++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/attributes/state.go b/attributes/state.go
index 946ee2f..8511288 100644
--- a/attributes/state.go
+++ b/attributes/state.go
@@ -132,29 +132,9 @@ func (i *StateIterator) StartOfLine(w runesio.Writer) {
 		return
 	}
 
-	// if the end of line was preceded by a stop, go down 1 level
-	attribute := i.current.Value.(Renderer)
-	currentLevel := attribute.Level()
-	if attribute.HasStop() {
-		currentLevel--
-	}
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
-	}
-
-	// starts all rendering sequences for this level
-	for current != nil {
-		attribute := current.Value.(Renderer)
-
+	// resume all the contexts which were open at the end of the previous line
+	for _, attribute := range i.openContexts() {
 		attribute.Start(w)
-
-		if current == i.current {
-			break
-		}
-
-		current = current.Next()
 	}
 }
 
@@ -164,30 +144,50 @@ func (i *StateIterator) EndOfLine(w runesio.Writer) {
 		return
 	}
 
-	// if the end of line was preceded by a stop, go down 1 level
-	attribute := i.current.Value.(Renderer)
-	currentLevel := attribute.Level()
-	if attribute.HasStop() {
-		currentLevel--
-	}
+	// close the contexts which are still open with their own stop, innermost first:
+	// skip the contexts which start (and stop) further down.
+	open := len(i.openContexts())
+	nested := 0
 
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
+	for current := i.current.Next(); current != nil && open > 0; current = current.Next() {
+		attribute := current.Value.(Renderer)
+
+		if attribute.HasStart() {
+			nested++
+		}
+
+		switch {
+		case !attribute.HasStop():
+			continue
+		case nested > 0:
+			nested--
+		default:
+			attribute.Stop(w)
+			open--
+		}
 	}
+}
 
-	// stop all sequences up to the last renderer at this level
-	for current != nil {
+// openContexts yields the renderers that started a context which is still open
+// after the current item, outermost first.
+func (i *StateIterator) openContexts() []Renderer {
+	var open []Renderer
+
+	for current := i.backtrack(1); current != nil; current = current.Next() {
 		attribute := current.Value.(Renderer)
-		level := attribute.Level()
 
-		if level < currentLevel {
-			break
+		if attribute.HasStart() {
+			open = append(open, attribute)
 		}
 
-		attribute.Stop(w)
+		if attribute.HasStop() && len(open) > 0 {
+			open = open[:len(open)-1]
+		}
 
-		current = current.Next()
+		if current == i.current {
+			break
+		}
 	}
+
+	return open
 }
-- 
2.43.0


From b2c84b3ab993d4a7e07605b534d4a430eeee31e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 08/30] fix: attributes: do not resume the first item before it
 is reached

Starting the first line rendered the start sequence of the first item, which was rendered again with the item.
---
 attributes/state.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attributes/state.go b/attributes/state.go
index 8511288..00777b4 100644
--- a/attributes/state.go
+++ b/attributes/state.go
@@ -128,7 +128,7 @@ func (i *StateIterator) backtrack(level int) *list.Element {
 
 // StartOfLine restores the state of attributes to start a new line.
 func (i *StateIterator) StartOfLine(w runesio.Writer) {
-	if i.current == nil {
+	if i.current == nil || i.start {
 		return
 	}
 
@@ -140,7 +140,7 @@ func (i *StateIterator) StartOfLine(w runesio.Writer) {
 
 // EndOfLine closes the state of attributes to end the line with an empty state.
 func (i *StateIterator) EndOfLine(w runesio.Writer) {
-	if i.current == nil {
+	if i.current == nil || i.start {
 		return
 	}
 
-- 
2.43.0


From b12491f913df408346fe12b5af12bae5213579bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 09/30] fix: ansi: do not write into the token being decoded

Appending a trailing sequence to the text wrote the same runes again in the memory of the caller:
a data race whenever the token is shared.
---
 terminal/ansi/ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 33de825..90250d5 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -134,7 +134,7 @@ func StripANSIFromRunes(rns []rune) StrippedToken {
 				groups[1] = endANSI // should normally never end up here
 			} else {
 				// indulge into one allocation
-				groups[1] = append(groups[1], endANSI...)
+				groups[1] = append(groups[1][:len(groups[1]):len(groups[1])], endANSI...) // do not write into the token
 			}
 
 		case sequenceKind == otherSequence && len(groups[2]) > 0:
-- 
2.43.0


From a58e741c40bd13cce16d84768038e10a496613a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 10/30] fix: ansi: decode parameters with 3 digits

After a parameter with 3 digits, the rune that follows was not read: the sequence was not recognized
(e.g. ESC[38;5;123m), or reached 1 rune beyond the token when it was cut at that point.
---
 terminal/ansi/ansi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 90250d5..49a519f 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -239,9 +239,9 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 	nextStart, _ = rdr.Seek(0, io.SeekCurrent)
 
 	hasZeroArg := true
-	for i := 0; i < maxDigits; i++ {
+	for i := 0; ; i++ { // up to maxDigits, then the rune that follows
 		r, _, err = rdr.ReadRune()
-		if err != nil {
+		if err != nil || i == maxDigits {
 			break
 		}
 
@@ -261,9 +261,9 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 		runeCount++
 		nextStart++
 
-		for i := 0; i < maxDigits; i++ {
+		for i := 0; ; i++ {
 			r, _, err = rdr.ReadRune()
-			if err != nil {
+			if err != nil || i == maxDigits {
 				break
 			}
 
-- 
2.43.0


From 146564923bd817cb90956fd15330df9b7b765fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 11/30] fix: ansi: detect a sequence that follows a stray
 escape

In ESC ESC [ 1 m, the second escape was skipped and the sequence left in the text.
---
 terminal/ansi/ansi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 49a519f..2626f17 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -328,7 +328,8 @@ func decodeText(rdr *runesio.SliceReader) []rune {
 				return rdr.Slice(int(current), int(current)+runeCount)
 			}
 
-			runeCount++
+			// this rune may well be the escape that introduces a sequence
+			_, _ = rdr.Seek(-1, io.SeekCurrent)
 		}
 
 		runeCount++
-- 
2.43.0


From a8bb8248448a1ee40889a7136e87863d0edc5731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 12/30] fix: hyphenator: regional variants use the rules of
 their language

For e.g. de-AT, fr-BE or es-MX, the matcher returns a tag with a region extension, which is none of the supported tags:
words were hyphenated with the default American English rules.
---
 wordbreak/hyphenator/languages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wordbreak/hyphenator/languages.go b/wordbreak/hyphenator/languages.go
index 59e8c74..02b9dd9 100644
--- a/wordbreak/hyphenator/languages.go
+++ b/wordbreak/hyphenator/languages.go
@@ -21,9 +21,9 @@ var (
 )
 
 func langToPattern(tag language.Tag) string {
-	matched, _, _ := langMatcher.Match(tag)
+	_, index, _ := langMatcher.Match(tag) // the matched tag may carry additional extensions, e.g. for de-AT
 
-	switch matched {
+	switch supportedLanguages[index] {
 	case language.BritishEnglish, language.English:
 		return "hyph-en-gb.tex"
 	case language.Spanish, language.EuropeanSpanish, language.LatinAmericanSpanish:
-- 
2.43.0


From 7e540bc17facb5f15a9d7df118a2b72eaa7ef35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 13/30] fix: hyphenator: apply exceptions whatever the case of
 the word

---
 wordbreak/hyphenator/hyphenator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index d17b20b..f68d7e5 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -84,7 +84,12 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 }
 
 func (h *Hyphenator) isException(word []rune) ([]int, bool) {
-	val := h.exceptions.Get(word)
+	lower := make([]rune, len(word)) // exceptions are stored in lower case
+	for i, r := range word {
+		lower[i] = unicode.ToLower(r)
+	}
+
+	val := h.exceptions.Get(lower)
 	if val != nil {
 		return val.([]int), true
 	}
-- 
2.43.0


From 631046264031f4d95decff9b7f0474f83704b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 14/30] fix: hyphenator: do not lose the last break points of a
 word

The last position was dropped from words with more than 29 runes,
and the patterns which start at the last letter were never looked up.
---
 wordbreak/hyphenator/hyphenator.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index f68d7e5..1acb128 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -59,10 +59,10 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 	// allocate buffers once for all iterations
 	hasPatterns := false
 	allBreakPoints := make([][]int, 0, wordLength+2)
-	positions := make([]int, 30) // the resulting hyphenation positions. A reasonable size is preallocated.
+	positions := make([]int, wordLength+3) // the resulting hyphenation positions for ".word.", with one more at both ends
 	fragmentBuffer := make([]rune, 0, wordLength+2)
 
-	for i := 0; i < wordLength; i++ { // ".word.", "ord.", "rd.", "d."
+	for i := 0; i <= wordLength; i++ { // ".word.", "word.", "ord.", "rd.", "d."
 		allBreakPoints, hasPatterns = h.isPattern(i, word, fragmentBuffer, allBreakPoints)
 		if hasPatterns {
 			positions = mergeBreakPoints(positions, allBreakPoints, i)
@@ -73,12 +73,8 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 
 	// ensure provided positions are consistent
 	// ex: [0 1 2 0 0 0 3 0 0 1]
-	switch {
-	case positions[0] > 0: // sometimes hyphen before first letter is "allowed"
-		positions[0] = 0
-	case len(positions) > wordLength && positions[wordLength] > 0:
-		positions[wordLength] = 0 // sometimes hyphen after last letter is "allowed"
-	}
+	positions[0] = 0          // sometimes hyphen before first letter is "allowed"
+	positions[wordLength] = 0 // sometimes hyphen after last letter is "allowed"
 
 	return h.splitAtPositions(word, wordLength, positions)
 }
-- 
2.43.0


From c4cddd972963596c675ff3d1b0d0259b07a261cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 15/30] fix: hyphenator: report read errors when loading
 patterns

A read error was taken for the end of the file: the dictionary held only a part of the rules.
---
 wordbreak/hyphenator/dictionary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index 4312adb..54535bd 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -132,6 +132,10 @@ func LoadPatterns(patternfile string) (*Dictionary, error) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, err // the rules are not complete
+	}
+
 	return dict, nil
 }
 
-- 
2.43.0


From 49b5f5b0d9cae1ba3b6df4fcf7003e84216ff77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 16/30] fix: hyphenator: do not remember the patterns that
 failed to load

---
 wordbreak/hyphenator/cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/cache.go b/wordbreak/hyphenator/cache.go
index 3fddeb1..17d9bfc 100644
--- a/wordbreak/hyphenator/cache.go
+++ b/wordbreak/hyphenator/cache.go
@@ -21,7 +21,10 @@ func loadDictFromCache(patterns string) *Dictionary {
 
 	dict, ok := loadedPatterns[patterns]
 	if !ok {
-		dict, _ = LoadPatterns(patterns)
+		var err error
+		if dict, err = LoadPatterns(patterns); err != nil {
+			return nil // do not remember failures
+		}
 	}
 
 	loadedPatterns[patterns] = dict
-- 
2.43.0


From 5d4bed0d8bd9af4bd13b88e5c8227e1c1cfe2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 17/30] fix: runes: Widths agrees with Width on any rune

Widths panicked on invalid runes and counted 0 for U+2E3B (three-em dash), which has width 4.
---
 terminal/runes/width.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/terminal/runes/width.go b/terminal/runes/width.go
index 9d1632d..0b6c976 100644
--- a/terminal/runes/width.go
+++ b/terminal/runes/width.go
@@ -50,6 +50,13 @@ func Widths(runes []rune, opts ...Option) (width int) {
 
 	buildLookupOnce.Do(initLookupTable) // builds the cache once
 	for _, r := range runes {
+		if !utf8.ValidRune(r) || r == 0x2E3B {
+			// not in the lookup table
+			width += runeWidth(r, o)
+
+			continue
+		}
+
 		width += int((lookupTable[r>>2] >> ((r % 4) * 2)) & 3)
 	}
 
-- 
2.43.0


From 820b8f39ee7affc35b2215aa98956f2ee0529734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 18/30] fix: strip_comments: report read, write and close
 errors

The generator reported success after producing an incomplete rules file.
---
 wordbreak/hyphenator/languages/strip_comments.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/wordbreak/hyphenator/languages/strip_comments.go b/wordbreak/hyphenator/languages/strip_comments.go
index 8eae926..598cbe6 100644
--- a/wordbreak/hyphenator/languages/strip_comments.go
+++ b/wordbreak/hyphenator/languages/strip_comments.go
@@ -17,6 +17,10 @@ var texComment = regexp.MustCompile(`^(.+?)\s*%.*$`)
 
 func main() {
 	if err := filepath.WalkDir("tex", func(pth string, d fs.DirEntry, err error) error {
+		if err != nil {
+			return err
+		}
+
 		if d.IsDir() || !strings.HasSuffix(d.Name(), ".tex") {
 			return nil
 		}
@@ -54,11 +58,17 @@ func strip(pth string) error {
 
 		default:
 			stripped := texComment.ReplaceAllString(line, "$1")
-			fmt.Fprintln(output, strings.TrimSpace(stripped))
+			if _, err := fmt.Fprintln(output, strings.TrimSpace(stripped)); err != nil {
+				return err
+			}
 		}
 	}
 
-	return nil
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+
+	return output.Close()
 }
 
 func isTeXComment(line string) bool {
-- 
2.43.0


From d6d3ef1e432f98421411cb5b594daaf156b2d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 19/30] fix: build_tables: never write tables from an
 incomplete download

Error statuses and downloads cut short were ignored, and the tables rewritten from what was received.
---
 terminal/runes/build_tables.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/terminal/runes/build_tables.go b/terminal/runes/build_tables.go
index 370c700..020d49a 100644
--- a/terminal/runes/build_tables.go
+++ b/terminal/runes/build_tables.go
@@ -59,8 +59,13 @@ func main() {
 		log.Fatal("retrieving %s: %v", targetWidthProperties, err)
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		log.Fatalf("retrieving %s: %s", targetWidthProperties, resp.Status)
+	}
 
-	_ = eastasian(f, resp.Body)
+	if err = eastasian(f, resp.Body); err != nil {
+		log.Fatalf("reading %s: %v", targetWidthProperties, err)
+	}
 
 	// retrieve unicode emojis with Extended_Pictographics
 	resp, err = http.Get(targetEmojiProperties)
@@ -68,8 +73,13 @@ func main() {
 		log.Fatal("retrieving %s: %v", targetEmojiProperties, err)
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		log.Fatalf("retrieving %s: %s", targetEmojiProperties, resp.Status)
+	}
 
-	_ = emoji(f, resp.Body)
+	if err = emoji(f, resp.Body); err != nil {
+		log.Fatalf("reading %s: %v", targetEmojiProperties, err)
+	}
 
 	out, err := format.Source(f.Bytes())
 	if err != nil {
@@ -192,7 +202,7 @@ func eastasian(out io.Writer, in io.Reader) error {
 	generate(out, "neutral", nu)
 	fmt.Fprintln(out)
 
-	return nil
+	return scanner.Err()
 }
 
 func emoji(out io.Writer, in io.Reader) error {
@@ -231,5 +241,5 @@ func emoji(out io.Writer, in io.Reader) error {
 	arr = shapeup(arr)
 	generate(out, "emoji", arr)
 
-	return nil
+	return scanner.Err()
 }
-- 
2.43.0


From ee0b4f7b1a1844d7b02b1e2f2befd26257b18dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 20/30] fix: linebreak: no overfull line, even with a large
 tolerance

---
 linebreak/knuth_plass.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 8affd3b..d527062 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -37,7 +37,7 @@ func (l *LineBreaker) adjustmentRatio(fromBreakPoint *breakPoint, toNode nodeT,
 			return (idealWidth - actualWidth) / shrink
 		}
 
-		return infinity
+		return math.Inf(1) // the line can't be shrunk: not acceptable, whatever the tolerance
 
 	default:
 		// perfect match
-- 
2.43.0


From 2b4c16ce1419d69a4550ca0ea4a53b8da07d7ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 21/30] fix: hyphenator: the last exception of a section may
 carry its closing brace

The exception "some-thing" of the British rules was stored as "something}", and never found.
---
 wordbreak/hyphenator/dictionary.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index 54535bd..bfb367a 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -204,6 +204,7 @@ func (dict *Dictionary) readException(line string) ([]rune, []int) {
 	if isTeXComment(line) {
 		return nil, nil
 	}
+	line = strings.TrimSuffix(line, "}") // the section may be closed on the line of the last exception
 
 	positions := make([]int, 0, 5)
 
-- 
2.43.0


From d24ecf1132cded80298e6400f18c598c9c0be528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 22/30] fix: linebreak: no overfull line with fractional
 measures, widths and scale factors

---
 linebreak/linebreaker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 8207c21..4f5953a 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -111,7 +111,7 @@ func (l *LineBreaker) buildUniformLengths(width float64) []float64 {
 // scale a text measure to convert the measurement unit to a value compatible
 // with the algorithm's parameters.
 func (l *LineBreaker) scale(in float64) float64 {
-	return math.Round(in * l.scaleFactor)
+	return in * l.scaleFactor
 }
 
 func (l *LineBreaker) downScale(in float64) float64 {
-- 
2.43.0


From 085b6ab82b8103c215f62535c7266b3bfa7907e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 23/30] fix: linebreak: one space between words, however wide
 the measure of a space

---
 linebreak/linebreaker.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 4f5953a..d5e190f 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -114,8 +114,13 @@ func (l *LineBreaker) scale(in float64) float64 {
 	return in * l.scaleFactor
 }
 
-func (l *LineBreaker) downScale(in float64) float64 {
-	return math.Round(in / l.scaleFactor)
+// countSpaces converts the width of a glue into a number of spaces.
+func (l *LineBreaker) countSpaces(width float64) int {
+	if l.spaceWidth <= 0 {
+		return 0
+	}
+
+	return int(math.Round(width / l.spaceWidth))
 }
 
 func skipNodes(start int, nodes []nodeT) int {
@@ -176,7 +181,7 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 					pad += line.ratio * node.stretch
 				}
 
-				spaces := repeatRunes(space, int(l.downScale(pad)))
+				spaces := repeatRunes(space, l.countSpaces(pad))
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-- 
2.43.0


From 42f951fdf0cf500755a0bdc7c1ab445633bfaeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 24/30] fix: linebreak: no panic when two break points follow
 each other with no text between them

---
 linebreak/knuth_plass.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index d527062..8eb960b 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -197,6 +197,14 @@ func (l *LineBreaker) mainLoop(index int) {
 			active := activeElement.Value.(*breakPoint)
 			next := activeElement.Next()
 			currentLine = active.line + 1
+
+			if !node.isForcedBreak() && !l.hasBox(active.position, index) {
+				// nothing to set between these two breaks: not a line
+				activeElement = next
+
+				continue
+			}
+
 			ratio := l.adjustmentRatio(active, node, l.sum, l.idealWidth(currentLine))
 
 			if ratio < -1 || node.isForcedBreak() {
@@ -230,6 +238,17 @@ func (l *LineBreaker) mainLoop(index int) {
 	}
 }
 
+// hasBox tells if there is some text to set in the range of nodes [from, to).
+func (l *LineBreaker) hasBox(from, to int) bool {
+	for _, node := range l.nodes[from:to] {
+		if node.isBox() {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates map[fitnessClass]*breakPoint) {
 	sum := l.sumFromNode(index)
 
-- 
2.43.0


From ddcae09de7a735357ab66271ccc90bcd71f513bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 25/30] fix: ansi: a reset followed by attributes starts them

---
 terminal/ansi/ansi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 2626f17..7cf4124 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -271,6 +271,10 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 				break
 			}
 
+			if r != '0' {
+				hasZeroArg = false // a reset followed by attributes starts them, as in ESC[0;31m
+			}
+
 			runeCount++
 			nextStart++
 		}
-- 
2.43.0


From 02ddf69cfb37bbc6a6aa3f39324a15aa00579237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 26/30] fix: linebreak: no space at the start of a line, after
 sequences without any text

---
 linebreak/linebreaker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index d5e190f..af18297 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -163,17 +163,23 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 		lineResult := new(strings.Builder)
 		runesWriter := runesio.AsRunesWriter(lineResult)
 		attributesState.StartOfLine(runesWriter)
+		hasText := false
 		for index, node := range line.nodes {
 			switch {
 			case node.isBox():
 				// render a box node
 				node.Render(runesWriter)
+				hasText = hasText || len(node.value) > 0
 				if node.HasRenderer() { // TODO: add state handling to box node
 					_ = attributesState.Next()
 				}
 
 			case node.isGlue():
 				// render a glue node
+				if !hasText {
+					continue // no space at the start of a line, even after sequences without any text
+				}
+
 				pad := node.width
 				if line.ratio < 0 {
 					pad += line.ratio * node.shrink
-- 
2.43.0


From bbb5f805ed9290bb726d895a128fc115fce233ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:19 +0000
Subject: [PATCH 27/30] fix: linebreak: no blank line after a punctuation mark
 or a hyphen

---
 linebreak/knuth_plass.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 8eb960b..48662f5 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -198,8 +198,11 @@ func (l *LineBreaker) mainLoop(index int) {
 			next := activeElement.Next()
 			currentLine = active.line + 1
 
-			if !node.isForcedBreak() && !l.hasBox(active.position, index) {
+			if l.isBlank(active.position, index) {
 				// nothing to set between these two breaks: not a line
+				if node.isForcedBreak() {
+					l.activeNodes.Remove(activeElement)
+				}
 				activeElement = next
 
 				continue
@@ -238,15 +241,19 @@ func (l *LineBreaker) mainLoop(index int) {
 	}
 }
 
-// hasBox tells if there is some text to set in the range of nodes [from, to).
-func (l *LineBreaker) hasBox(from, to int) bool {
+// isBlank tells if there is no text to set in the range of nodes [from, to).
+//
+// Tokens without any text (i.e. escape sequences) may be set on their own line: the rest of a broken word may not.
+func (l *LineBreaker) isBlank(from, to int) bool {
+	afterWordBreak := l.nodes[from].isPenalty() && l.nodes[from].flagged
+
 	for _, node := range l.nodes[from:to] {
-		if node.isBox() {
-			return true
+		if node.isBox() && (len(node.value) > 0 || !afterWordBreak) {
+			return false
 		}
 	}
 
-	return false
+	return afterWordBreak || !l.nodes[to].isForcedBreak()
 }
 
 func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates map[fitnessClass]*breakPoint) {
-- 
2.43.0


From 578ced9f702bd05f51c91df4231c13ee2c6dcd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:24 +0000
Subject: [PATCH 28/30] fix: linebreak: the last line of a paragraph may be as
 short as needed

---
 linebreak/knuth_plass.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 48662f5..c49c8a7 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -24,7 +24,13 @@ func (l *LineBreaker) adjustmentRatio(fromBreakPoint *breakPoint, toNode nodeT,
 		stretch := sum.stretch - fromBreakPoint.totals.stretch
 
 		if stretch > 0 {
-			return (idealWidth - actualWidth) / stretch
+			ratio := (idealWidth - actualWidth) / stretch
+			if toNode.isForcedBreak() {
+				// the last line may be as short as needed
+				ratio = minf(ratio, minf(1, l.tolerance))
+			}
+
+			return ratio
 		}
 
 		return infinity
-- 
2.43.0


From c0c7d792b3857de8e2f757e69be5ec705cfa1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 29/30] fix: linebreak: no blank line at the end of a paragraph

---
 linebreak/knuth_plass.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index c49c8a7..c80ffaa 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -259,7 +259,7 @@ func (l *LineBreaker) isBlank(from, to int) bool {
 		}
 	}
 
-	return afterWordBreak || !l.nodes[to].isForcedBreak()
+	return from > 0 || !l.nodes[to].isForcedBreak()
 }
 
 func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates map[fitnessClass]*breakPoint) {
-- 
2.43.0


From e0c73d04e56e40f17c27877e1ca9479d35d0f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:04 +0000
Subject: [PATCH 30/30] fix: runesio: a rune that is not valid has the size of
 its encoding

The size of such runes was -1: the offsets a regexp reports on the reader were wrong.
---
 terminal/runes/runesio/slice_reader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/terminal/runes/runesio/slice_reader.go b/terminal/runes/runesio/slice_reader.go
index f66bb03..623e49f 100644
--- a/terminal/runes/runesio/slice_reader.go
+++ b/terminal/runes/runesio/slice_reader.go
@@ -36,7 +36,7 @@ func (r *SliceReader) ReadRune() (rune, int, error) {
 	rn := r.runes[r.offset]
 	r.offset++
 
-	return rn, utf8.RuneLen(rn), nil
+	return rn, runeLen(rn), nil
 }
 
 // Runes returns unread runes.
@@ -121,7 +121,7 @@ func (r *SliceReader) SliceFromByteOffsets(slice []int) [][]rune {
 			if offset < startByte {
 				startRune++
 			}
-			offset += utf8.RuneLen(rn)
+			offset += runeLen(rn)
 
 			if offset > endByte {
 				break
@@ -134,3 +134,12 @@ func (r *SliceReader) SliceFromByteOffsets(slice []int) [][]rune {
 
 	return groups
 }
+
+// runeLen is the size of a rune in bytes. Invalid runes are encoded as utf8.RuneError.
+func runeLen(r rune) int {
+	if size := utf8.RuneLen(r); size > 0 {
+		return size
+	}
+
+	return utf8.RuneLen(utf8.RuneError)
+}
-- 
2.43.0

