From 4f32309584aada91cf5600b695d556ac42fb1cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 01/29] fix: stop range tick computation from looping forever

A flat negative series made the tick increment negative, and a spread of only a
few ulps made it too small to change the tick, so the loop appended ticks until
memory ran out.
---
 promq/term/plot/axes.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 95469d6..d65ccf5 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -114,13 +114,15 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 
 
 		platRngInc := (graph.RangeMax - graph.RangeMin)/rngTicksBase
-		if platRngInc == 0 {
-			platRngInc = graph.RangeMax // just two ticks
-		}
-		if platRngInc == 0 { // in case (graph.RangeMax - graph.RangeMin) == 0
-			platRngInc = 1
-		}
-		for x := graph.RangeMin; x <= graph.RangeMax; x += platRngInc {
+		for i := 0.0; i <= rngTicksBase; i++ {
+			x := graph.RangeMin + i*platRngInc
+			if !(x <= graph.RangeMax) {
+				break
+			}
+			// the increment may be zero, or too small to change the value
+			if len(platRngTicks) > 0 && x <= platRngTicks[len(platRngTicks)-1] {
+				continue
+			}
 			platRngTicks = append(platRngTicks, x)
 		}
 		// always put a tick @ max
-- 
2.43.0


From 89fde09a02d7fffae38057b330482cb3e090df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 02/29] fix: keep domain ticks of narrow domains on the graph

With a domain shorter than the number of ticks, ticks were placed DomainMax
apart, far to the right of the last data point.
---
 promq/term/plot/axes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index d65ccf5..93693c9 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -92,7 +92,7 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 
 		platDomInc := (graph.DomainMax - graph.DomainMin)/domTicksBase
 		if platDomInc == 0 {
-			platDomInc = graph.DomainMax // just two ticks
+			numTicks = 1 // just two ticks: this one, plus the one @ max
 		}
 		platDomTicks = make([]int64, numTicks)
 		for i := range platDomTicks {
-- 
2.43.0


From 7149727908ad5c0bf8cc1bef44f9066c7a942c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 03/29] fix: do not crash on a series without points

---
 promq/term/plot/plot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 7779c87..90a7a6e 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -185,7 +185,7 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 		}
 
 		// handle the very last point
-		if len(lastPt.OriginalPoints) > 1 {
+		if lastPt != nil && len(lastPt.OriginalPoints) > 1 {
 			lastPt.Row /= Row(len(lastPt.OriginalPoints))
 		}
 
-- 
2.43.0


From e1b8df61f243725f6d74607286489b9895dce951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 04/29] fix: leave NaN and infinite samples out of plots

They mapped to rows far outside of the screen, so rendering them panicked.
---
 promq/term/plot/plot.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 90a7a6e..a84d9c0 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -103,6 +103,9 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 
 			for _, pt := range pts {
 				val := pt.Y()
+				if !hasPosition(val) {
+					continue
+				}
 				if val < res.RangeMin {
 					res.RangeMin = val
 				}
@@ -116,6 +119,12 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 	return res
 }
 
+// hasPosition checks if a value can be placed on a graph -- NaN and the
+// infinities (e.g. from a division by zero in a query) can't.
+func hasPosition(val float64) bool {
+	return !math.IsNaN(val) && !math.IsInf(val, 0)
+}
+
 func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize) (func(int64) Column, func(float64) Row) {
 	// since the valid values for rows are [0, Rows), subtract one to make sure
 	// that g.DomainMax --> Rows-1 < Rows, and similarly for cols
@@ -162,6 +171,9 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 
 		for _, inPoint := range inSeries.Points() {
 			inX, inY := inPoint.X(), inPoint.Y()
+			if !hasPosition(inY) {
+				continue
+			}
 
 			col, row := domain(inX), rng(inY)
 			if lastPt != nil {
-- 
2.43.0


From b60800741c77d36dc3fdc87423793bbf56e32f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 05/29] fix: scroll text down when the cursor is on the first
 line

ScrollUp iterated from the second-to-last row while the row was <= 0, so it
moved nothing on areas of more than two rows and never ended on smaller ones.
---
 promq/term/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 2f7e70c..d3865ce 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -191,7 +191,7 @@ func (t *textWrapper) ScrollUp() {
 	}
 
 	// otherwise, move all the lines down one row...
-	for r := t.rows-2; r <= 0; r-- {
+	for r := t.rows-2; r >= 0; r-- {
 		for c := 0; c < t.cols; c++ {
 			mainRune, combRunes, style, _ := t.buf.GetContent(c, r)
 			t.buf.SetContent(c, r+1, mainRune, combRunes, style)
-- 
2.43.0


From a81e1fd4fd452ff62a0d8ecd450c8ef4f21da201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 06/29] fix: keep the text cursor within its area

Shrinking a text area, or writing a wide character to an area of one column,
left the cursor past the end of the line; the next line-clearing operation
panicked.
---
 promq/term/prompt.go  |  5 +----
 promq/term/wrapper.go | 26 +++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index fec64ad..6598273 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -72,10 +72,7 @@ func (w *cellWriter) SetBox(box PositionBox) {
 
 	w.startCol = box.StartCol
 	w.startRow = box.StartRow
-	w.text.rows = box.Rows
-	w.text.cols = box.Cols
-
-	w.text.buf.Resize(box.Cols, box.Rows)
+	w.text.Resize(box.Cols, box.Rows)
 }
 
 func (w *cellWriter) WriteRaw(data []byte) {
diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index d3865ce..b943db6 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -39,6 +39,24 @@ func (t *textWrapper) Resize(cols, rows int) {
 	t.cols = cols
 	t.rows = rows
 	t.buf.Resize(cols, rows)
+	t.clampCursor()
+}
+
+// clampCursor keeps the cursor within the widget: it may be just past the last
+// column of a row (the next cell written wraps), but no further.
+func (t *textWrapper) clampCursor() {
+	if t.cursorRow >= t.rows {
+		t.cursorRow = t.rows-1
+	}
+	if t.cursorRow < 0 {
+		t.cursorRow = 0
+	}
+	if t.cursorCol > t.cols {
+		t.cursorCol = t.cols
+	}
+	if t.cursorCol < 0 {
+		t.cursorCol = 0
+	}
 }
 
 // Reset clears the contents of the widget and moves the cursor back to (0, 0).
@@ -123,6 +141,7 @@ func (t *textWrapper) writeNextCell(width int, runes []rune, sty tcell.Style) {
 	}
 	t.buf.SetContent(t.cursorCol, t.cursorRow, runes[0], runes[1:], sty)
 	t.cursorCol += width
+	t.clampCursor()
 }
 
 func (t *textWrapper) FlushTo(screen tcell.Screen, startCol, startRow int) {
@@ -262,10 +281,15 @@ func (t *textWrapper) CursorPosition() (col, row int) {
 	return t.cursorCol, t.cursorRow
 }
 
-// CursorGoTo moves the cursor to the given row and column.
+// CursorGoTo moves the cursor to the given row and column, stopping at the
+// edges of the wrapper.
 func (t *textWrapper) CursorGoTo(row, col int) {
+	if col >= t.cols {
+		col = t.cols-1
+	}
 	t.cursorRow = row
 	t.cursorCol = col
+	t.clampCursor()
 }
 
 // CursorDown moves the cursor down n rows, stopping at the bottom of wrapper.
-- 
2.43.0


From 53c9053e30b2923e9663185df56a6688a7c7c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 07/29] fix: send every key to the prompt as the key that was
 pressed

F17 to F20 were sent as sequences that go-prompt takes for home, insert,
delete and end, and ctrl-j (also a newline in the initial input) was dropped.
---
 promq/term/keytobytes.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/promq/term/keytobytes.go b/promq/term/keytobytes.go
index bd9e5f0..f710adf 100644
--- a/promq/term/keytobytes.go
+++ b/promq/term/keytobytes.go
@@ -47,6 +47,9 @@ func nonRuneKeyToBytes(evt *tcell.EventKey) []byte {
 	switch rawKey {
 	case tcell.KeyTab:
 		key = prompt.Tab
+	case tcell.KeyCtrlJ:
+		// go-prompt knows the newline that ctrl-j sends as enter
+		key = prompt.Enter
 	case tcell.KeyCtrlSpace:
 		key = prompt.ControlSpace
 	case tcell.KeyCtrlBackslash:
@@ -123,9 +126,11 @@ func nonRuneKeyToBytes(evt *tcell.EventKey) []byte {
 		}
 	}
 	// this is hillariously inefficient since go-prompt immediately reverses
-	// it, but it's what we're stuck with
+	// it, but it's what we're stuck with.  Some sequences stand for several
+	// keys (e.g. home and F17), so look for one that'll be reversed to the
+	// same key.
 	for _, seq := range prompt.ASCIISequences {
-		if seq.Key == key {
+		if seq.Key == key && prompt.GetKey(seq.ASCIICode) == key {
 			return seq.ASCIICode
 		}
 	}
-- 
2.43.0


From 2a8ba4cffa05b576364388be3a09ebf327014bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:18 +0000
Subject: [PATCH 08/29] fix: show the prompt's cursor inside its box, without
 racing with resizes

ShowCursor read the position of the widget without holding its lock, and put
the cursor in the column after the widget when a line was exactly full.
---
 promq/term/prompt.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 6598273..4333ce8 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -101,8 +101,16 @@ func (w *cellWriter) EraseScreen() {
 	w.Erase()
 }
 func (w *cellWriter) ShowCursor() {
-	cursorCol, cursorRow := w.CursorPosition()
-	w.screen.ShowCursor(w.startCol+cursorCol, w.startRow+cursorRow)
+	w.textMu.Lock()
+	cursorCol, cursorRow := w.text.CursorPosition()
+	if cursorCol >= w.text.cols && w.text.cols > 0 {
+		// about to wrap: stay within our box
+		cursorCol = w.text.cols-1
+	}
+	col, row := w.startCol+cursorCol, w.startRow+cursorRow
+	w.textMu.Unlock()
+
+	w.screen.ShowCursor(col, row)
 }
 func (w *cellWriter) HideCursor() {
 	w.screen.HideCursor()
-- 
2.43.0


From af8880646a8d7b132983072705f945fce9ec8b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:13 +0000
Subject: [PATCH 09/29] fix: do not deadlock on matchers that match the empty
 value

The callback of IterValues runs with the postings locked, so it must not lock
them again: any query like m{label!="value"} hung forever.
---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index a282d28..8477d27 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -199,7 +199,7 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 			// find all the places where this isn't set
 			var withValueSet []index.Postings
 			q.storage.postings.IterValues(matcher.Name, func(val string) {
-				withValueSet = append(withValueSet, q.storage.postings.Get(matcher.Name, val))
+				withValueSet = append(withValueSet, q.storage.postings.UnsafeGet(matcher.Name, val))
 			})
 			matchingVals = append(matchingVals, index.Without(q.storage.postings.All(), index.Merge(withValueSet...)))
 		}
-- 
2.43.0


From 0d48b25cf5b336e232e67c086a238a72e24aa61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:13 +0000
Subject: [PATCH 10/29] fix: insert samples that go back in time at their place

The search predicate was inverted, so late samples were put at the start or
the end of the series instead of between its older and newer samples.
---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 8477d27..aeca45a 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -94,7 +94,7 @@ func (s *rangeStorage) LoadData(points []ParsedSeries) error {
 		if needSort {
 			// find the insertion point, shift things forward, and slot in the data point
 			insertionPt := sort.Search(len(block.data)-1, func(ind int) bool {
-				return datapt.timestamp > block.data[ind].timestamp
+				return block.data[ind].timestamp > datapt.timestamp
 			})
 			copy(block.data[insertionPt+1:], block.data[insertionPt:len(block.data)-1])
 			block.data[insertionPt] = datapt
-- 
2.43.0


From f9029aaa4cc3aac5ceff650db21f5385a4d57047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:13 +0000
Subject: [PATCH 11/29] fix: let series come back after all their samples were
 cleaned up

Clean dropped such series from the postings only: their old samples stayed in
memory, and new samples were added to them without ever being found again.
---
 promq/prom/query.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index aeca45a..7000021 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -111,6 +111,7 @@ func (s *rangeStorage) Clean(olderThan int64) {
 		if len(block.data) == 0 {
 			// oops
 			postingsToClean[ref] = struct{}{}
+			continue
 		}
 		if block.data[0].timestamp >= olderThan {
 			// skip new enough blocks
@@ -130,6 +131,13 @@ func (s *rangeStorage) Clean(olderThan int64) {
 	}
 
 	s.postings.Delete(postingsToClean)
+	for ref := range postingsToClean {
+		// forget the series as well, so that it's indexed again (without the
+		// old data) if it comes back
+		lset := s.data[ref].series
+		s.series.del(lset.Hash(), lset)
+		delete(s.data, ref)
+	}
 	/*
 		// first, find the first timestamp newer than our cutoff
 		startKeeps := sort.Search(len(s.knownTimes), func(ind int) bool {
-- 
2.43.0


From 25f5667bf905ff813febb08555d73206cd2785d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:13 +0000
Subject: [PATCH 12/29] fix: give every series iterator its own position, which
 never goes back

Iterators of one series shared their position, and seeking to an earlier time
moved it backwards, also after the end, against the iterator contract.
---
 promq/prom/query.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 7000021..4c6fb0d 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -288,7 +288,11 @@ type blockSeries struct {
 }
 
 func (s *blockSeries) Iterator() chunkenc.Iterator {
-	return s
+	// iterators of the same series must not move each other
+	return &blockSeries{
+		block: s.block,
+		ind:   -1,
+	}
 }
 func (s *blockSeries) Labels() labels.Labels {
 	return s.block.series
@@ -298,8 +302,15 @@ func (s *blockSeries) Next() bool {
 	return s.ind < len(s.block.data)
 }
 func (s *blockSeries) Seek(targetTime int64) bool {
-	s.ind = sort.Search(len(s.block.data), func(ind int) bool {
-		return s.block.data[ind].timestamp >= targetTime
+	// only ever seek forward, from the current sample on
+	if s.ind < 0 {
+		s.ind = 0
+	}
+	if s.ind >= len(s.block.data) {
+		return false
+	}
+	s.ind += sort.Search(len(s.block.data)-s.ind, func(ind int) bool {
+		return s.block.data[s.ind+ind].timestamp >= targetTime
 	})
 	return s.ind < len(s.block.data)
 }
-- 
2.43.0


From 432083325368fdedc97430c1f97faac3b6f1f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:13 +0000
Subject: [PATCH 13/29] fix: sort selected series when asked to

The querier interface lets callers ask for series sorted by labels, which they
rely on to merge them; the series always came in the order of arrival.
---
 promq/prom/query.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 4c6fb0d..40ea0a9 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -182,6 +182,30 @@ func (q *memQuerier) SelectSorted(_ ...*labels.Matcher) (storage.SeriesSet, stor
 func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matchers ...*labels.Matcher) storage.SeriesSet {
 	// we ignore hints b/c they're mostly just an optimization over large datasets
 
+	finalPostings := q.matchingPostings(matchers...)
+	if sortSeries {
+		finalPostings = q.sortPostings(finalPostings)
+	}
+	return q.newSeriesSet(finalPostings)
+}
+
+// sortPostings returns the given postings in the order of their labels.
+func (q *memQuerier) sortPostings(postings index.Postings) index.Postings {
+	var refs []uint64
+	for postings.Next() {
+		refs = append(refs, postings.At())
+	}
+	if err := postings.Err(); err != nil {
+		return index.ErrPostings(err)
+	}
+	sort.Slice(refs, func(i, j int) bool {
+		return labels.Compare(q.storage.data[refs[i]].series, q.storage.data[refs[j]].series) < 0
+	})
+	return index.NewListPostings(refs)
+}
+
+// matchingPostings returns the series that all of the given matchers match.
+func (q *memQuerier) matchingPostings(matchers ...*labels.Matcher) index.Postings {
 	// TODO(sollyross): we can use tricks from tsdb/querier to optimize a bit
 	// if we need to for performance reasons
 	sets := make([]index.Postings, len(matchers))
@@ -214,8 +238,7 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 		sets[i] = index.Merge(matchingVals...)
 	}
 
-	finalPostings := index.Intersect(sets...)
-	return q.newSeriesSet(finalPostings)
+	return index.Intersect(sets...)
 }
 
 func (q *memQuerier) LabelValues(name string, matchers ...*labels.Matcher) ([]string, storage.Warnings, error) {
-- 
2.43.0


From 4dbe2a3c5e51e3991ac50fba724556941dbb334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:13 +0000
Subject: [PATCH 14/29] fix: list the label names and values of the matching
 series

LabelNames and LabelValues applied the matchers to the label's name instead of
to the series' labels, LabelNames also returned the empty name under which all
series are indexed, and neither sorted its result.
---
 promq/prom/query.go | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 40ea0a9..895dc83 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -243,30 +243,41 @@ func (q *memQuerier) matchingPostings(matchers ...*labels.Matcher) index.Posting
 
 func (q *memQuerier) LabelValues(name string, matchers ...*labels.Matcher) ([]string, storage.Warnings, error) {
 	// doesn't look like we need to error on missing label from the prom implementations
-	var res []string
-	q.storage.postings.IterValues(name, func(val string) {
-		for _, matcher := range matchers {
-			if !matcher.Matches(name) {
-				return
-			}
-		}
-		res = append(res, val)
+	return q.labelStrings(matchers, func(lbl labels.Label) (string, bool) {
+		return lbl.Value, lbl.Name == name
 	})
-	return res, nil, nil
 }
 
 func (q *memQuerier) LabelNames(matchers ...*labels.Matcher) ([]string, storage.Warnings, error) {
-	var res []string
-	q.storage.postings.IterNames(func(name string) {
-		for _, matcher := range matchers {
-			if !matcher.Matches(name) {
-				return
+	return q.labelStrings(matchers, func(lbl labels.Label) (string, bool) {
+		return lbl.Name, true
+	})
+}
+
+// labelStrings collects the unique strings that pick returns for the labels of
+// the series that match all of the given matchers, in sorted order.
+func (q *memQuerier) labelStrings(matchers []*labels.Matcher, pick func(labels.Label) (string, bool)) ([]string, storage.Warnings, error) {
+	postings := q.storage.postings.All()
+	if len(matchers) > 0 {
+		postings = q.matchingPostings(matchers...)
+	}
+	seen := make(map[string]struct{})
+	for postings.Next() {
+		for _, lbl := range q.storage.data[postings.At()].series {
+			if str, ok := pick(lbl); ok {
+				seen[str] = struct{}{}
 			}
 		}
-		res = append(res, name)
-	})
+	}
+	if err := postings.Err(); err != nil {
+		return nil, nil, err
+	}
+	res := make([]string, 0, len(seen))
+	for str := range seen {
+		res = append(res, str)
+	}
+	sort.Strings(res)
 	return res, nil, nil
-
 }
 
 func (q *memQuerier) Close() error {
-- 
2.43.0


From 15a96803e7acb1a4c2147132b3e82f69a90bd475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:56 +0000
Subject: [PATCH 15/29] fix: do not crash completing text that is not ASCII or
 cannot be tokenized

---
 promq/autocomplete/earley/completer.go | 15 +++------------
 promq/autocomplete/earley/earley.go    |  7 ++++---
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index b0d3f6a..a07d99f 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -152,16 +152,7 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 }
 
 func getPrefix(query string) string {
-	if len(query) == 0 {
-		return ""
-	}
-	for i := len(query) - 1; i >= 0; i-- {
-		c := []rune(query)[i]
-		if strings.ContainsRune(PromQLTokenSeparators, c) {
-			// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
-			// Should we return metric_a as a prefix or return the next suggested token of metric name?
-			return query[i+1:]
-		}
-	}
-	return query
+	// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
+	// Should we return metric_a as a prefix or return the next suggested token of metric name?
+	return query[strings.LastIndexAny(query, PromQLTokenSeparators)+1:]
 }
diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 82a6af1..d621ca0 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -185,11 +185,12 @@ func (p *Earley) PartialParse(tokens Tokens, chartIndex int) *earleyChart {
 
 func (p *Earley) GetSuggestedTokenType(tokens Tokens) (types []ContextualToken) {
 	lastTokenPos := len(tokens) - 1
-	if lastTokenPos < 0 {
-		lastTokenPos = 0
+	if lastTokenPos < 0 || !tokens[lastTokenPos].isEof() {
+		// the input couldn't be tokenized to its end, so nothing can follow it
+		return nil
 	}
 
-	if p.words == nil || len(p.words) == 0 || len(tokens) == 0 || !p.words[0].equals(tokens[0]) {
+	if p.words == nil || len(p.words) == 0 || !p.words[0].equals(tokens[0]) {
 		p.ParseTokens(tokens)
 	} else {
 		result := p.words.Compare(tokens)
-- 
2.43.0


From b1c5b516bd871adaaf447f3d0c5b1a1b3507fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:06 +0000
Subject: [PATCH 16/29] fix: forget the previous words when parsing from the
 beginning

---
 promq/autocomplete/earley/earley.go | 1 +
 promq/autocomplete/earley/luthor.go | 5 ++---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index d621ca0..8a611d0 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -141,6 +141,7 @@ func (p *Earley) Parse(input string) *earleyChart {
 // ParseTokens parses the full input tokens from beginning
 func (p *Earley) ParseTokens(tokens Tokens) *earleyChart {
 	p.chart.resetChartBeforeIndex(0)
+	p.words = nil
 	p.PartialParse(tokens, 0)
 	debug.Debugf("------\n%v\n------\n", p.chart.String())
 	return p.chart
diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 4820971..949f386 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -63,16 +63,15 @@ func (ws Tokens) Last() Tokhan {
 }
 
 func (ws Tokens) Compare(tks2 Tokens) int {
-	i := 0
 	for i, t := range ws {
 		// return positive i if ws and tks2 have partial overlap
 		if i >= len(tks2) || !t.equals(tks2[i]) {
 			return i
 		}
 	}
-	// return negative i if tks2 covers ws
+	// return the negative length of ws if tks2 covers ws
 	if len(tks2) > len(ws) {
-		return 0 - i
+		return 0 - len(ws)
 	}
 	// return 0 if they are equal
 	return 0
-- 
2.43.0


From 2d859a90827da9fdb6aa6abd8cfbe16ee2cc5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:32 +0000
Subject: [PATCH 17/29] fix: complete after labels that are named like
 functions

---
 promq/autocomplete/earley/grammar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/promq/autocomplete/earley/grammar.go b/promq/autocomplete/earley/grammar.go
index 2c45835..e80fa8e 100644
--- a/promq/autocomplete/earley/grammar.go
+++ b/promq/autocomplete/earley/grammar.go
@@ -158,6 +158,10 @@ func (t terminal) String() string {
 }
 
 func (t terminal) isMatchingTerminal(tt TokenType) bool {
+	if t.tokenSubType != nil && *t.tokenSubType == METRIC_LABEL_SUBTYPE && (tt == FUNCTION_SCALAR_ID || tt == FUNCTION_VECTOR_ID) {
+		// labels may be named like functions
+		return true
+	}
 	return t.tokenType == tt || (t.tokenSubType != nil && *t.tokenSubType == tt)
 }
 func (t terminal) getType() *TokenType {
-- 
2.43.0


From c24356459d147380370a7ef02ad981b816a5f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 18/29] fix: filter without changing the case of what is
 filtered

---
 promq/autocomplete/filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/promq/autocomplete/filter.go b/promq/autocomplete/filter.go
index c44bcc7..26211ee 100644
--- a/promq/autocomplete/filter.go
+++ b/promq/autocomplete/filter.go
@@ -56,10 +56,11 @@ func filterSet(autocompletions sets.String, sub string, ignoreCase bool, inclusi
 	}
 	ret := sets.NewString()
 	for _, item := range autocompletions.List() {
+		compared := item
 		if ignoreCase {
-			item = strings.ToLower(item)
+			compared = strings.ToLower(item)
 		}
-		if inclusionFunc(item, sub) {
+		if inclusionFunc(compared, sub) {
 			ret.Insert(item)
 		}
 	}
-- 
2.43.0


From 71ba16fff07ac537600c860caf493a4f569d1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 19/29] fix: hand out copies of the indexed label values

---
 promq/prom/indexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/promq/prom/indexer.go b/promq/prom/indexer.go
index 3d4d76f..82f9509 100644
--- a/promq/prom/indexer.go
+++ b/promq/prom/indexer.go
@@ -108,5 +108,10 @@ func (i *indexer) GetStoredValuesForMetricAndDimension(metricName string, dimens
 	if !ok {
 		return nil
 	}
-	return dimensionForMetric[dimension]
+	values, ok := dimensionForMetric[dimension]
+	if !ok {
+		return nil
+	}
+	// hand out a copy -- ours may be updated at any time
+	return sets.NewString(values.UnsortedList()...)
 }
-- 
2.43.0


From d2865b4903598f74aba7d0c55abfc54d88c5a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 20/29] fix: do not query while a scrape is changing the data
 or the query

---
 promq/prom/multi.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 7f5d474..37a85da 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -95,17 +95,29 @@ func (q *PeriodicData) Scrape(ctx context.Context) error {
 		return err
 	}
 
-	if err := q.ManuallyExecuteQuery(ctx, q.Callback); err != nil {
+	if err := q.executeQuery(ctx, q.Callback); err != nil {
 		return fmt.Errorf("unable to execute query: %w", err)
 	}
 	return nil
 }
 
 func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallback) error {
+	// don't look at the data while a scrape is changing it
+	q.storageMu.RLock()
+	defer q.storageMu.RUnlock()
+	return q.executeQuery(ctx, cb)
+}
+
+// executeQuery runs the current query.  Must be called with the storage lock held.
+func (q *PeriodicData) executeQuery(ctx context.Context, cb ResultsCallback) error {
+	q.queryMu.RLock()
+	qs := q.Query
+	q.queryMu.RUnlock()
+
 	var query promql.Query
 	if q.Times.Instant {
 		var err error
-		query, err = q.engine.NewInstantQuery(q.storage, q.Query, time.Now())
+		query, err = q.engine.NewInstantQuery(q.storage, qs, time.Now())
 		if err != nil {
 			return fmt.Errorf("unable to construct instant query: %w", err)
 		}
@@ -113,7 +125,7 @@ func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallb
 		var err error
 		end := time.Now()
 		start := time.Now().Add(time.Duration(-1) * q.Times.Window)
-		query, err = q.engine.NewRangeQuery(q.storage, q.Query, start, end, q.Times.Interval)
+		query, err = q.engine.NewRangeQuery(q.storage, qs, start, end, q.Times.Interval)
 		if err != nil {
 			return fmt.Errorf("unable to construct range query: %w", err)
 		}
-- 
2.43.0


From 94e5b87e037c9622c721ee9ab8d7422b6651a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 21/29] fix: complete at the cursor and keep what was typed
 before it

---
 cmd/metrics/autocompleter.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index b6e6114..e7c5f58 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -20,12 +20,14 @@ import (
     "github.com/c-bata/go-prompt"
 
 	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
+	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
 )
 
 const (
 	// spaces can't individually demarcate individual lexical units
-	// in promql.
-	PromQLTokenSeparators = " []{}()=!~,"
+	// in promql.  These must be the ones that the suggestions are made with,
+	// since they decide what an accepted suggestion replaces.
+	PromQLTokenSeparators = earley.PromQLTokenSeparators
 )
 
 type Completer struct {
@@ -37,13 +39,19 @@ func NewCompleter(completor autocomplete.PromQLCompleter) *Completer {
 }
 
 func (c *Completer) Complete(d prompt.Document) []prompt.Suggest {
-	if d.TextBeforeCursor() == "" {
+	before := d.TextBeforeCursor()
+	if before == "" {
 		return []prompt.Suggest{}
 	}
-	ret := c.promCompleter.GenerateSuggestions(d.Text, d.DisplayCursorPosition())
+	ret := c.promCompleter.GenerateSuggestions(d.Text, len(before))
 	suggests := make([]prompt.Suggest, len(ret))
 	for i, s := range ret {
-		suggests[i] = prompt.Suggest{Text: s.GetValue(), Description: s.GetDetail()}
+		text := s.GetValue()
+		if s.GetKind() == "time-unit" {
+			// units follow the number before the cursor, they don't replace it
+			text = d.GetWordBeforeCursorUntilSeparator(PromQLTokenSeparators) + text
+		}
+		suggests[i] = prompt.Suggest{Text: text, Description: s.GetDetail()}
 	}
 	return suggests
 }
-- 
2.43.0


From 0f0405aad44a2f02d6457ead63c91ec34b22e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 22/29] fix: report HTTP errors of scraped endpoints

---
 cmd/metrics/metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 320ff55..12c80d2 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -110,6 +110,10 @@ func (s *httpSource) ScrapePrometheusEndpoint(ctx context.Context, nowish time.T
 	}
 	defer resp.Body.Close()
 
+	if resp.StatusCode < 200 || resp.StatusCode > 299 {
+		return nil, fmt.Errorf("unable to fetch raw metrics data: server returned HTTP status %s", resp.Status)
+	}
+
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, fmt.Errorf("unable to read metrics response body: %w", err)
-- 
2.43.0


From 9132c71e76deae6f281c93a33063e249c3de261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 23/29] fix: do not wait for a prompt that no longer reads keys
 when stopping

---
 promq/term/prompt.go     | 10 ++++++++--
 promq/term/withprompt.go |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 4333ce8..ad72a2c 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -153,6 +153,9 @@ type screenParser struct {
 	// NB(directxman12): go-prompt assumes shortcut keys and things like enter come in on their
 	// own event, so we send keys individually and collapse non-newline runes in read inline
 	evts chan *tcell.EventKey
+	// done is closed once nothing reads any more, so that keys pressed after that
+	// are dropped instead of blocking the event loop (and its shutdown).
+	done <-chan struct{}
 	leftOvers []byte
 	mu sync.Mutex
 }
@@ -236,12 +239,15 @@ CollapseLoop:
 }
 
 func (p *screenParser) AddKey(evt *tcell.EventKey) {
-	p.evts <- evt
+	select {
+	case p.evts <- evt:
+	case <-p.done:
+	}
 }
 
 func (p *screenParser) AddString(str string) {
 	for _, rn := range str {
-		p.evts <- tcell.NewEventKey(tcell.KeyRune, rn, 0)
+		p.AddKey(tcell.NewEventKey(tcell.KeyRune, rn, 0))
 	}
 }
 
diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index 7244e04..23cd578 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -88,6 +88,7 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 	}
 	v.reader = &screenParser{
 		evts: make(chan *tcell.EventKey, 30),
+		done: ctx.Done(),
 	}
 	viewPrompt := v.SetupPrompt(prompt.OptionParser(v.reader), prompt.OptionWriter(v.writer))
 	start := make(chan struct{})
-- 
2.43.0


From 3d9a9e5162531a489394f8e9d4494d74a064b10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 24/29] fix: set up the prompt and the screen before using them
 in interactive mode

---
 cmd/metrics/metrics.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 12c80d2..9e040aa 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -182,9 +182,6 @@ func (c *MetricsCommand) Run(flags cli.PromQFlags) error {
 		Instant:  !flags.Continuous,
 	}
 
-	// asyncronously trigger scrape
-	go c.scrape(ctx, runner)
-
 	//c := NewPromQLCompleter(index)
 	if flags.Continuous {
 		// it's valid, let's try drawing
@@ -430,8 +427,16 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 	}
 
 	ctx, stopScreen := context.WithCancel(ctx)
+	defer stopScreen()
+
+	// the prompt can't be displayed or sent keys until it's been set up
+	promptReady := make(chan struct{})
+	promptView.OnSetup = func() { close(promptReady) }
 	go promptView.Run(ctx, &qs, stopScreen)
+	<-promptReady
 
+	// asyncronously trigger scrape, once there's a screen to show the results on
+	termRunner.OnStart = func() { go c.scrape(ctx, runner) }
 	if err := termRunner.Run(ctx, makeView(promptView, nil, nil, 10)); err != nil {
 		return err
 	}
-- 
2.43.0


From 39cfe35e978101316c2dfee16472240cc9fb2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 25/29] fix: keep requested views and paints when the event
 queue is full

---
 promq/term/runner.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 3793a9c..099367d 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -54,6 +54,13 @@ type Runner struct {
 	screen tcell.Screen
 	screenMu sync.Mutex
 
+	// nextView is the view that was last requested, until the event loop picks
+	// it up, and repaint is whether a paint was requested since.  The screen
+	// drops events when its queue is full, so they only serve to wake up the
+	// event loop.
+	nextView View
+	repaint  bool
+
 	// KeyHandler receives key events produced during Run.  It must be specified.
 	KeyHandler func(*tcell.EventKey)
 	
@@ -109,20 +116,23 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 		}
 		for evt := screen.PollEvent(); evt != nil; evt = screen.PollEvent() {
 			screenCols, screenRows := screen.Size()
+			newView, repaint := r.takeRequests()
+			if newView != nil {
+				// clearing is less efficient, but means we
+				// don't get weird artifacts from the sidebar resizing, etc
+				screen.Clear()
+				mainView = newView
+				mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
+			}
 			switch evt := evt.(type) {
 			case *tcell.EventKey:
 				r.KeyHandler(evt)
-				continue
-			case *tcell.EventInterrupt:
-				newView, hasNewView := evt.Data().(View)
-				if hasNewView {
-					// clearing is less efficient, but means we
-					// don't get weird artifacts from the sidebar resizing, etc
-					screen.Clear()
-					mainView = newView
-					mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
+				if !repaint {
+					continue
 				}
 				// continue below
+			case *tcell.EventInterrupt:
+				// continue below
 			case *tcell.EventResize:
 				screenCols, screenRows = evt.Size()
 				if mainView != nil {
@@ -160,6 +170,7 @@ func (r *Runner) RequestRepaint() {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
+	r.repaint = true
 	r.screen.PostEvent(tcell.NewEventInterrupt(nil))
 }
 
@@ -169,9 +180,21 @@ func (r *Runner) RequestUpdate(newView View) {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
+	r.nextView, r.repaint = newView, true
 	r.screen.PostEvent(tcell.NewEventInterrupt(newView))
 }
 
+// takeRequests returns the view that was requested since it was last called,
+// if any, and whether a paint was.
+func (r *Runner) takeRequests() (View, bool) {
+	r.screenMu.Lock()
+	defer r.screenMu.Unlock()
+
+	newView, repaint := r.nextView, r.repaint
+	r.nextView, r.repaint = nil, false
+	return newView, repaint
+}
+
 // ShowCursor shows the cursor at the given location.
 func (r *Runner) ShowCursor(col, row int) {
 	r.screenMu.Lock()
-- 
2.43.0


From ecf59cc58662be9234afce3b4d4780cd09bdb158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 26/29] fix: place values on scales other than the identity

---
 promq/term/plot/plot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index a84d9c0..1b97f23 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -146,7 +146,7 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 		return Column(math.Round(float64(x-g.DomainMin)*domainScaleFactor))
 	}
 	rng := func(y float64) Row {
-		return Row(math.Round(float64(scale(y-g.RangeMin))*rangeScaleFactor))
+		return Row(math.Round(float64(scale(y)-scale(g.RangeMin))*rangeScaleFactor))
 	}
 
 	return domain, rng
-- 
2.43.0


From 16bce26385f44d8c21b038279a186fceaede365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 27/29] fix: take the initial command of the prompt before any
 other keys

---
 promq/term/withprompt.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index 23cd578..8566da4 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -19,6 +19,8 @@ package term
 import (
 	"context"
 	"errors"
+	"unicode/utf8"
+
 	"github.com/c-bata/go-prompt"
 	"github.com/gdamore/tcell"
 )
@@ -86,10 +88,18 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 	v.writer = &cellWriter{
 		screen: v.Screen,
 	}
+	initialKeys := ""
+	if initialInput != nil {
+		// the initial command
+		initialKeys = *initialInput + "\r"
+	}
 	v.reader = &screenParser{
-		evts: make(chan *tcell.EventKey, 30),
+		// leave room for the initial command, which nobody reads yet
+		evts: make(chan *tcell.EventKey, 30+utf8.RuneCountInString(initialKeys)),
 		done: ctx.Done(),
 	}
+	// do this before there can be any other keys, so that they don't end up in the middle
+	v.reader.AddString(initialKeys)
 	viewPrompt := v.SetupPrompt(prompt.OptionParser(v.reader), prompt.OptionWriter(v.writer))
 	start := make(chan struct{})
 	v.start = start
@@ -127,12 +137,6 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 		}
 	}()
 
-	// do this after starting the input loop so that we don't block on the channel capacity
-	if initialInput != nil {
-		// populate the initial command
-		v.reader.AddString(*initialInput+"\r")
-	}
-
 	<-ctx.Done()
 
 	if err := ctx.Err(); !errors.Is(err, context.Canceled) {
-- 
2.43.0


From c5a973979dffa5b2368ed28c385198d70717221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 28/29] fix: keep keys that are typed ahead for the next line
 of the prompt

---
 promq/term/prompt.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index ad72a2c..7364663 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -157,13 +157,17 @@ type screenParser struct {
 	// are dropped instead of blocking the event loop (and its shutdown).
 	done <-chan struct{}
 	leftOvers []byte
+	// lineDone is set once the key that ends a line was read: go-prompt stops reading then,
+	// but drops what it has read in the meantime, so keep the rest till it asks for a new line.
+	lineDone bool
 	mu sync.Mutex
 }
 
 // these are pointers so that we don't copy the mutex,
 // which isn't a big deal here cause we're not using it,
 // but makes the race detector sad anyway
-func (*screenParser) Setup() error {
+func (p *screenParser) Setup() error {
+	p.lineDone = false
 	return nil
 }
 func (*screenParser) TearDown() error {
@@ -184,11 +188,16 @@ func (p *screenParser) Resize(size *prompt.WinSize) {
 }
 
 func (p *screenParser) Read() ([]byte, error) {
+	if p.lineDone {
+		return nil, syscall.EWOULDBLOCK
+	}
+
 	// check if we had accumulated some normal bytes and then hit a newline or
 	// special key
 	if p.leftOvers != nil {
 		res := p.leftOvers
 		p.leftOvers = nil
+		p.lineDone = endsLine(res)
 		return res, nil
 	}
 
@@ -230,6 +239,7 @@ CollapseLoop:
 	if len(res) == 0 && len(p.leftOvers) > 0 {
 		res = p.leftOvers
 		p.leftOvers = nil
+		p.lineDone = endsLine(res)
 	}
 
 	if len(res) > 0 {
@@ -238,6 +248,15 @@ CollapseLoop:
 	return nil, syscall.EWOULDBLOCK
 }
 
+// endsLine checks if go-prompt ends the line on the given special key.
+func endsLine(key []byte) bool {
+	switch prompt.GetKey(key) {
+	case prompt.Enter, prompt.ControlJ, prompt.ControlM:
+		return true
+	}
+	return false
+}
+
 func (p *screenParser) AddKey(evt *tcell.EventKey) {
 	select {
 	case p.evts <- evt:
-- 
2.43.0


From 2a6c48ad51702b296c4e7af7399cb6231c92066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 29/29] fix: series whose labels share a hash with those of
 another were never indexed

---
 promq/prom/indexer.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/promq/prom/indexer.go b/promq/prom/indexer.go
index 82f9509..6f926ca 100644
--- a/promq/prom/indexer.go
+++ b/promq/prom/indexer.go
@@ -36,43 +36,47 @@ type indexer struct {
 	metricNameMu sync.RWMutex
 	// let's just be super inefficient
 	store map[string]map[string]sets.String
-	// metric bloom filter
-	metricBloomFilter sets.Uint64
 }
 
 func NewIndex() Indexer {
 	return &indexer{
-		metricNameMu:      sync.RWMutex{},
-		metricBloomFilter: sets.Uint64{},
-		store:             map[string]map[string]sets.String{},
+		metricNameMu: sync.RWMutex{},
+		store:        map[string]map[string]sets.String{},
 	}
 }
 
-func (i *indexer) isMetricPresent(hash uint64) bool {
-	// check our metricBloomFilter and abort if unnecessary
+// isMetricPresent tells whether all the labels of a series of the given metric
+// are stored already, with their values.
+func (i *indexer) isMetricPresent(name string, ls map[string]string) bool {
 	i.metricNameMu.RLock()
 	defer i.metricNameMu.RUnlock()
-	return i.metricBloomFilter.Has(hash)
+	dimensions, ok := i.store[name]
+	if !ok {
+		return false
+	}
+	for l, v := range ls {
+		if l != labels.MetricName && !dimensions[l].Has(v) {
+			return false
+		}
+	}
+	return true
 }
 
 func (i *indexer) UpdateMetric(m ParsedSeries) {
-	hash := m.Labels.Hash()
-	// abort if we don't need to store this parsed series.
-	// note: we don't care about collisions, this is functionally
-	// a bloom filter.
-	if i.isMetricPresent(hash) {
-		return
-	}
 	ls := m.Labels.Map()
 	n, ok := ls[labels.MetricName]
 	if !ok {
 		debug.Errorln("This metric doesn't have a name")
 		return
 	}
+	// abort if we don't need to store this parsed series.
+	// note: we can't go by the hash of its labels, which it may share
+	// with another series.
+	if i.isMetricPresent(n, ls) {
+		return
+	}
 	i.metricNameMu.Lock()
 	defer i.metricNameMu.Unlock()
-	// next time we will know that
-	i.metricBloomFilter.Insert(hash)
 	if _, ok := i.store[n]; !ok {
 		i.store[n] = map[string]sets.String{}
 	}
-- 
2.43.0

