From b1f0e3a5f89ee1ec1ce9fb5d890de6709d07af0c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:09:19 +0000
Subject: [PATCH 1/8] fix: make the display-width cache safe for concurrent use

AlignmentLeft/Right/Center and FormatItem of unrelated tables all share one
package-level LRU; two goroutines crashed with 'concurrent map read and map write'.
---
 width.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 5e110b9..10cc914 100644
--- a/width.go
+++ b/width.go
@@ -16,7 +16,7 @@ var ansiEscapeRE = regexp.MustCompile(
 	"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]",
 )
 
-var widthCache = lru.New[string, uint16](lru.WithCapacity(10000))
+var widthCache = lru.NewSync[string, uint16](lru.WithCapacity(10000))
 
 // runewidth.FillLeft(str, width) or runewidth.FillRight(str, width) do not work
 
-- 
2.43.0


From a131d41f23fe23999c734432ca3cb0c459f84fe4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:09:20 +0000
Subject: [PATCH 2/8] fix: do not subtract one cell too many for escapes
 starting with U+009B

U+009B takes two bytes, so "\u009b31mred" measured 2 and "\u009b0m" 65535.
---
 width.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 10cc914..2c5dd9a 100644
--- a/width.go
+++ b/width.go
@@ -39,6 +39,7 @@ func visualWidth(str string) uint16 {
 func countMatchesLength(re *regexp.Regexp, s string) int {
 	// it does not count the first (invisible) character
 	// because runewidth library already ignores that
+	// (which is 1 byte for ESC, but 2 bytes for U+009B)
 	total := 0
 	for start := 0; start < len(s); {
 		remaining := s[start:] // slicing the string is cheap
@@ -49,7 +50,7 @@ func countMatchesLength(re *regexp.Regexp, s string) int {
 		// loc[0] is the start index of the match,
 		// loc[1] is the end index (exclusive)
 		start += loc[1]
-		total += loc[1] - loc[0] - 1
+		total += runewidth.StringWidth(remaining[loc[0]:loc[1]])
 	}
 	return total
 }
-- 
2.43.0


From 19af6992355ed1658bd9e5ffbad5fced5acc0ec5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:09:21 +0000
Subject: [PATCH 3/8] fix: saturate display width at MAX_WIDTH instead of
 wrapping around

---
 width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 2c5dd9a..6396342 100644
--- a/width.go
+++ b/width.go
@@ -31,7 +31,11 @@ func visualWidth(str string) uint16 {
 	if w > 0 {
 		return w
 	}
-	w = uint16(runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str))
+	width := runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str)
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
+	}
+	w = uint16(width)
 	widthCache.Set(str, w)
 	return w
 }
-- 
2.43.0


From dda99b91dcfa0dbcad2dd73d2bde55fc893c8fab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:09:22 +0000
Subject: [PATCH 4/8] fix: decide by display width whether a column title fits
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The byte length dropped titles like "名前" from a column of 4 cells.
---
 table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 9bab608..bdb3952 100644
--- a/table.go
+++ b/table.go
@@ -139,8 +139,8 @@ func (t *Table) padColumnHeader(col *Column) string {
 	if width == 0 {
 		return value
 	}
-	if len(value) > int(width) {
-		if len(col.ShortTitle) > int(width) {
+	if visualWidth(value) > width {
+		if visualWidth(col.ShortTitle) > width {
 			value = ""
 		} else {
 			value = col.ShortTitle
-- 
2.43.0


From fd3b6cd2374a342026babfd57e19a6a04cba3e38 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:09:22 +0000
Subject: [PATCH 5/8] fix: keep TableWidth from wrapping around

A table without columns reported 65536-margin, and a table wider than 65535
reported the remainder.
---
 table.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index bdb3952..ba38920 100644
--- a/table.go
+++ b/table.go
@@ -159,9 +159,15 @@ func (t *Table) FormatHeader(sep string) string {
 }
 
 func (t *Table) TableWidth(margin uint16) uint16 {
-	width := (uint16(t.ColumnCount()) - 1) * margin
+	if t.ColumnCount() == 0 {
+		return 0
+	}
+	width := (t.ColumnCount() - 1) * int(margin)
 	for _, col := range t.Columns {
-		width += t.Width(col.Name)
+		width += int(t.Width(col.Name))
+	}
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
 	}
-	return width
+	return uint16(width)
 }
-- 
2.43.0


From c7a2c114e68724a21a308fd29b0564cb324a9fbe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:09:23 +0000
Subject: [PATCH 6/8] fix: count correctly how many rows fit side by side

The cells of a row are joined with innerSep, not sep, so an empty sep gave
lines wider than maxWidth. maxWidth+margin wrapped around near MAX_WIDTH, a
negative maxWidth became a huge one, and a zero-width row divided by zero.
---
 horizontal.go | 8 +++++++-
 vertical.go   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index e64945f..465c278 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -18,8 +18,14 @@ func (t *Table) MergeRowsHorizontal(
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
+	if maxWidthArg < 0 {
+		maxWidthArg = 0
+	}
 	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	groupCount := 1
+	if rowWidth := int(t.TableWidth(innerMargin)) + int(margin); rowWidth > 0 {
+		groupCount = (int(maxWidth) + int(margin)) / rowWidth
+	}
 	if groupCount < 1 {
 		groupCount = 1
 	}
diff --git a/vertical.go b/vertical.go
index a64518e..9f7b0f5 100644
--- a/vertical.go
+++ b/vertical.go
@@ -18,8 +18,14 @@ func (t *Table) MergeRowsVertical(
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
+	if maxWidthArg < 0 {
+		maxWidthArg = 0
+	}
 	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	groupCount := 1
+	if rowWidth := int(t.TableWidth(innerMargin)) + int(margin); rowWidth > 0 {
+		groupCount = (int(maxWidth) + int(margin)) / rowWidth
+	}
 	if groupCount < 1 {
 		groupCount = 1
 	}
-- 
2.43.0


From 6f527e192eff2ca1a2ffdccdb5956dcf61b8aa5c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:09:24 +0000
Subject: [PATCH 7/8] fix: end the search for a compact layout, and keep its
 sum from wrapping

With an empty sep and one column, or with maxWidth near MAX_WIDTH, every
group count was accepted and MergeRowsHorizontal never returned.
---
 horizontal.go | 14 ++++++++++----
 vertical.go   | 11 +++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 465c278..4105015 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -78,15 +78,21 @@ func (t *Table) compactCalcH(
 	margin uint16,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	innerN := t.ColumnCount() - 1
+	if innerN < 0 {
+		innerN = 0
+	}
 	for {
 		groupCount := groupCountInit + extra + 1
+		if groupCount > items.Len() {
+			return
+		}
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := int(margin)*(groupCount-1) + int(innerMargin)*innerN*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
-		if totalWidth > maxWidth {
+		if totalWidth > int(maxWidth) {
 			return
 		}
 		cellWidth = cellWidthNew
diff --git a/vertical.go b/vertical.go
index 9f7b0f5..7dc0a8c 100644
--- a/vertical.go
+++ b/vertical.go
@@ -78,18 +78,21 @@ func (t *Table) compactCalcV(
 	margin uint16,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	innerN := t.ColumnCount() - 1
+	if innerN < 0 {
+		innerN = 0
+	}
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthV(items, groupCount)
 		if cellWidthNew == nil {
 			return
 		}
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := int(margin)*(groupCount-1) + int(innerMargin)*innerN*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
-		if totalWidth > maxWidth {
+		if totalWidth > int(maxWidth) {
 			return
 		}
 		cellWidth = cellWidthNew
-- 
2.43.0


From eb4f0356c31e19da83b184c4958306ccaa79ff17 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:09:25 +0000
Subject: [PATCH 8/8] fix: print no line for an empty list of items

(0-1)/groupCount+1 is 1 for groupCount > 1, so a blank line was printed.
---
 horizontal.go | 2 +-
 vertical.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 4105015..96a7353 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -42,7 +42,7 @@ func (t *Table) MergeRowsHorizontal(
 		}
 	}
 	itemN := items.Len()
-	lineCount := (itemN-1)/groupCount + 1
+	lineCount := (itemN + groupCount - 1) / groupCount
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
 		for groupI := 0; groupI < groupCount; groupI++ {
diff --git a/vertical.go b/vertical.go
index 7dc0a8c..834a968 100644
--- a/vertical.go
+++ b/vertical.go
@@ -42,7 +42,7 @@ func (t *Table) MergeRowsVertical(
 		}
 	}
 	itemN := items.Len()
-	lineCount := (itemN-1)/groupCount + 1
+	lineCount := (itemN + groupCount - 1) / groupCount
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
 		for groupI := 0; groupI < groupCount; groupI++ {
-- 
2.43.0

