From 1770cf4c620b545b0da0d197e303e1d13bd2b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 01/32] fix: list WithFilter keeps the focus on a filtered item

Installing a filter function while a query is active could leave the focused
index beyond the filtered items.
---
 components/list/internal/domain/model/list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 63385be..1361a8c 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -82,11 +82,15 @@ func (l *List) WithFilter(filterFunc func(*value.Item, string) bool) *List {
 	newList := l.clone()
 	newList.filterFunc = filterFunc
 	newList.applyFilter()
+	newList.resetFocus()
 	return newList
 }
 
 // WithHeight returns a new List with the specified visible height.
 func (l *List) WithHeight(height int) *List {
+	if height < 0 {
+		height = 0
+	}
 	newList := l.clone()
 	newList.height = height
 	newList.updateScrollOffset()
-- 
2.43.0


From 8710c18c7da4698c08da28f8cdfd44ef7dca160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 02/32] fix: keep the selected table row visible when the body
 height changes and never slice a negative window

---
 .../table/internal/domain/model/table.go      | 40 +++++++++----------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/components/table/internal/domain/model/table.go b/components/table/internal/domain/model/table.go
index 9e42ef7..0855a00 100644
--- a/components/table/internal/domain/model/table.go
+++ b/components/table/internal/domain/model/table.go
@@ -75,7 +75,7 @@ func (t *Table) WithHeight(height int) *Table {
 		sortColumnKey: t.sortColumnKey,
 		sortDirection: t.sortDirection,
 		selectedIndex: t.selectedIndex,
-		scrollOffset:  t.scrollOffset,
+		scrollOffset:  scrollTo(t.scrollOffset, t.selectedIndex, height, t.showHeader),
 		height:        height,
 		showHeader:    t.showHeader,
 	}
@@ -90,7 +90,7 @@ func (t *Table) WithShowHeader(show bool) *Table {
 		sortColumnKey: t.sortColumnKey,
 		sortDirection: t.sortDirection,
 		selectedIndex: t.selectedIndex,
-		scrollOffset:  t.scrollOffset,
+		scrollOffset:  scrollTo(t.scrollOffset, t.selectedIndex, t.height, show),
 		height:        t.height,
 		showHeader:    show,
 	}
@@ -162,16 +162,7 @@ func (t *Table) MoveDown() *Table {
 	}
 
 	newIndex := t.selectedIndex + 1
-	newOffset := t.scrollOffset
-
-	// Scroll down if needed.
-	visibleRows := t.height
-	if t.showHeader {
-		visibleRows-- // Header takes one row
-	}
-	if newIndex >= t.scrollOffset+visibleRows {
-		newOffset = newIndex - visibleRows + 1
-	}
+	newOffset := scrollTo(t.scrollOffset, newIndex, t.height, t.showHeader)
 
 	return &Table{
 		columns:       t.columns,
@@ -208,15 +199,7 @@ func (t *Table) MoveToEnd() *Table {
 		maxIndex = 0
 	}
 
-	visibleRows := t.height
-	if t.showHeader {
-		visibleRows--
-	}
-
-	newOffset := maxIndex - visibleRows + 1
-	if newOffset < 0 {
-		newOffset = 0
-	}
+	newOffset := scrollTo(0, maxIndex, t.height, t.showHeader)
 
 	return &Table{
 		columns:       t.columns,
@@ -263,6 +246,18 @@ func (t *Table) Rows() []Row {
 	return t.rows
 }
 
+// scrollTo returns the scroll offset, starting from offset, at which the row at
+// index lies inside the body. A body without room for a row keeps the offset.
+func scrollTo(offset, index, height int, showHeader bool) int {
+	if showHeader {
+		height-- // Header takes one row
+	}
+	if height > 0 && index >= offset+height {
+		return index - height + 1
+	}
+	return offset
+}
+
 // VisibleRows returns the rows currently visible in the viewport.
 func (t *Table) VisibleRows() []Row {
 	rows := t.effectiveRows()
@@ -270,6 +265,9 @@ func (t *Table) VisibleRows() []Row {
 	if t.showHeader {
 		visibleRows--
 	}
+	if visibleRows < 0 {
+		visibleRows = 0
+	}
 
 	start := t.scrollOffset
 	end := start + visibleRows
-- 
2.43.0


From 16bc6d16d7109b6e7b9d4bf7d099e70e9349a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 03/32] fix: confirm button shortcut is the label's first
 character, not its first byte

---
 components/confirm/internal/domain/value/button.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/confirm/internal/domain/value/button.go b/components/confirm/internal/domain/value/button.go
index 3bd5084..080bf62 100644
--- a/components/confirm/internal/domain/value/button.go
+++ b/components/confirm/internal/domain/value/button.go
@@ -1,6 +1,8 @@
 // Package value provides value objects for the confirm component.
 package value
 
+import "unicode/utf8"
+
 // Button represents a button option in the confirm dialog.
 // This is a value object - immutable and defined by its attributes.
 type Button struct {
@@ -13,7 +15,7 @@ type Button struct {
 func NewButton(label string) *Button {
 	var key rune
 	if label != "" {
-		key = rune(label[0])
+		key, _ = utf8.DecodeRuneInString(label)
 	}
 	return &Button{
 		label: label,
-- 
2.43.0


From 46acf1fabd296112b61d0f126ab362ba4dff7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 04/32] fix: form validates fields without a selection and no
 longer shares field storage between forms

---
 components/form/form.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/components/form/form.go b/components/form/form.go
index f6a6752..c4285b3 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -73,7 +73,10 @@ func New(title string) *Form {
 func (f *Form) Field(name, label string, fieldModel value.FieldModel, validators ...value.Validator) *Form {
 	field := value.NewField(name, label, fieldModel).WithValidators(validators...)
 
-	fields := append(f.domain.Fields(), field)
+	// Copy before appending: forms built from the same parent must not share storage.
+	fields := make([]*value.Field, 0, len(f.domain.Fields())+1)
+	fields = append(fields, f.domain.Fields()...)
+	fields = append(fields, field)
 
 	// Update field name mapping
 	newFieldNames := make(map[string]int, len(f.fieldNames)+1)
@@ -256,9 +259,11 @@ func (f *Form) extractFieldValues() map[string]interface{} {
 		case interface{ Value() string }:
 			result[field.Name()] = valuer.Value()
 		case interface{ SelectedValue() (interface{}, bool) }:
-			if val, ok := valuer.SelectedValue(); ok {
-				result[field.Name()] = val
+			val, ok := valuer.SelectedValue()
+			if !ok {
+				val = nil // nothing selected: the validators still have to see the field
 			}
+			result[field.Name()] = val
 		default:
 			// Default: use the model itself as value
 			result[field.Name()] = field.Model()
-- 
2.43.0


From e085e0d6210cebe5150e4408b295e1a4182c1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 05/32] fix: progress increments by an extreme delta no longer
 overflow past the clamp

---
 components/progress/internal/domain/value/percentage.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/components/progress/internal/domain/value/percentage.go b/components/progress/internal/domain/value/percentage.go
index 20a1cd8..f353bf3 100644
--- a/components/progress/internal/domain/value/percentage.go
+++ b/components/progress/internal/domain/value/percentage.go
@@ -23,13 +23,14 @@ func (p *Percentage) Value() int {
 // Add returns a new Percentage with the delta added.
 // The result is clamped to [0, 100].
 func (p *Percentage) Add(delta int) *Percentage {
-	return NewPercentage(p.value + delta)
+	// A delta beyond a whole range changes nothing more, and must not overflow.
+	return NewPercentage(p.value + clamp(delta, -100, 100))
 }
 
 // Subtract returns a new Percentage with the delta subtracted.
 // The result is clamped to [0, 100].
 func (p *Percentage) Subtract(delta int) *Percentage {
-	return NewPercentage(p.value - delta)
+	return NewPercentage(p.value - clamp(delta, -100, 100))
 }
 
 // IsComplete returns true if the percentage is 100%.
-- 
2.43.0


From 4a43dc6ac297bdfa64a54bae83b29129a615fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 06/32] fix: any TERM containing 256color reports 256 colours,
 as documented

---
 terminal/internal/infrastructure/unix/ansi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terminal/internal/infrastructure/unix/ansi.go b/terminal/internal/infrastructure/unix/ansi.go
index da36f82..a0d9e2b 100644
--- a/terminal/internal/infrastructure/unix/ansi.go
+++ b/terminal/internal/infrastructure/unix/ansi.go
@@ -14,6 +14,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"strings"
 	"sync"
 
 	"golang.org/x/term"
@@ -311,8 +312,7 @@ func (a *ANSITerminal) ColorDepth() int {
 	}
 
 	// Check for 256 color support.
-	termEnv := os.Getenv("TERM")
-	if termEnv == "xterm-256color" || termEnv == "screen-256color" || termEnv == "tmux-256color" {
+	if strings.Contains(os.Getenv("TERM"), "256color") {
 		return 256 // 8-bit
 	}
 
-- 
2.43.0


From dca3a2e41ae126fed1e80d5dc0f70984456b8ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 07/32] fix: layout measures and draws box content by display
 width, not bytes

---
 layout/internal/domain/model/box.go              | 5 +++--
 layout/internal/domain/service/render_service.go | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/layout/internal/domain/model/box.go b/layout/internal/domain/model/box.go
index cc249be..4eb99e0 100644
--- a/layout/internal/domain/model/box.go
+++ b/layout/internal/domain/model/box.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
+
 	value2 "github.com/phoenix-tui/phoenix/layout/internal/domain/value"
 )
 
@@ -200,8 +202,7 @@ func (b *Box) ContentSize() value2.Size {
 	// Calculate width (longest line)
 	maxWidth := 0
 	for _, line := range lines {
-		// TODO(Day 3): Use phoenix/core.UnicodeService.Width(line)
-		width := len(line)
+		width := core.StringWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
diff --git a/layout/internal/domain/service/render_service.go b/layout/internal/domain/service/render_service.go
index b41a621..6343412 100644
--- a/layout/internal/domain/service/render_service.go
+++ b/layout/internal/domain/service/render_service.go
@@ -4,6 +4,8 @@ package service
 import (
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
+
 	model2 "github.com/phoenix-tui/phoenix/layout/internal/domain/model"
 )
 
@@ -144,7 +146,7 @@ func (rs *RenderService) Render(box *model2.Box) string {
 		line += contentLine
 
 		// Add right padding to align right border
-		lineWidth := len(contentLine)
+		lineWidth := core.StringWidth(contentLine)
 		spacesNeeded := contentWidth - lineWidth
 
 		// Only pad to contentWidth if we have a border (to align it)
@@ -211,7 +213,7 @@ func (rs *RenderService) RenderNode(node *model2.Node) string {
 func (rs *RenderService) calculateContentWidth(lines []string) int {
 	maxWidth := 0
 	for _, line := range lines {
-		width := len(line)
+		width := core.StringWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
-- 
2.43.0


From 4b15df7e3754af5224b62fe9688f07eb4fa0d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 08/32] fix: flex layout draws wide characters in the columns
 they occupy

---
 layout/layout.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/layout/layout.go b/layout/layout.go
index 07e45cb..e72e7e0 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -83,6 +83,7 @@ package layout
 import (
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
 	model2 "github.com/phoenix-tui/phoenix/layout/internal/domain/model"
 	service2 "github.com/phoenix-tui/phoenix/layout/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/layout/internal/domain/value"
@@ -766,12 +767,14 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 	// Render each item
 	var result strings.Builder
 
-	// Create a grid to track occupied positions
-	grid := make([][]rune, containerHeight)
+	// Create a grid to track occupied positions. Each entry is the text drawn
+	// in that column; the columns a wide character covers beyond its first
+	// stay empty.
+	grid := make([][]string, containerHeight)
 	for i := range grid {
-		grid[i] = make([]rune, containerWidth)
+		grid[i] = make([]string, containerWidth)
 		for j := range grid[i] {
-			grid[i][j] = ' '
+			grid[i][j] = " "
 		}
 	}
 
@@ -787,20 +790,31 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 				break
 			}
 
-			x := pos.X()
-			for _, ch := range line {
-				if x >= containerWidth {
+			x, last := pos.X(), -1
+			for i, ch := range line {
+				end := pos.X() + core.StringWidth(line[:i]+string(ch))
+				if end > containerWidth {
 					break
 				}
-				grid[y][x] = ch
-				x++
+				if end <= x {
+					// Takes no column of its own: belongs to the previous character
+					if last >= 0 {
+						grid[y][last] += string(ch)
+					}
+					continue
+				}
+				grid[y][x] = string(ch)
+				last = x
+				for x++; x < end; x++ {
+					grid[y][x] = ""
+				}
 			}
 		}
 	}
 
 	// Convert grid to string
 	for i, row := range grid {
-		result.WriteString(string(row))
+		result.WriteString(strings.Join(row, ""))
 		if i < len(grid)-1 {
 			result.WriteRune('\n')
 		}
-- 
2.43.0


From 48dab11d459e09852407056cc02a85d96f2b73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 09/32] fix: borders use the nearest palette color like text
 does

---
 .../application/command/border_renderer.go    | 95 ++-----------------
 1 file changed, 6 insertions(+), 89 deletions(-)

diff --git a/style/internal/application/command/border_renderer.go b/style/internal/application/command/border_renderer.go
index 4147202..831ae03 100644
--- a/style/internal/application/command/border_renderer.go
+++ b/style/internal/application/command/border_renderer.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
+	"github.com/phoenix-tui/phoenix/style/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/style/internal/infrastructure/ansi"
 )
@@ -224,94 +225,10 @@ func (br *BorderRenderer) applyBorderColorToSides(line string, _ value2.Border,
 
 // colorToANSI converts a Color to ANSI code based on terminal capability.
 func (br *BorderRenderer) colorToANSI(color value2.Color, termCap value2.TerminalCapability, isForeground bool) string {
-	r, g, b := color.RGB()
-
-	switch termCap {
-	case value2.TrueColor:
-		if isForeground {
-			return br.ansiGenerator.Foreground(r, g, b)
-		}
-		return br.ansiGenerator.Background(r, g, b)
-
-	case value2.ANSI256:
-		// Convert RGB to 256-color palette.
-		code := br.rgbTo256(r, g, b)
-		if isForeground {
-			return br.ansiGenerator.Foreground256(code)
-		}
-		return br.ansiGenerator.Background256(code)
-
-	case value2.ANSI16:
-		// Convert RGB to 16-color palette.
-		code := br.rgbTo16(r, g, b)
-		if isForeground {
-			return br.ansiGenerator.Foreground16(code)
-		}
-		return br.ansiGenerator.Background16(code)
-
-	default:
-		return ""
+	// Same nearest-color conversion as text, so that borders match it.
+	adapter := service.NewColorAdapter()
+	if isForeground {
+		return adapter.ToANSIForeground(color, termCap)
 	}
-}
-
-// rgbTo256 converts RGB to 256-color palette index.
-// Uses 6x6x6 color cube + grayscale ramp.
-func (br *BorderRenderer) rgbTo256(r, g, b uint8) uint8 {
-	// Grayscale detection.
-	if r == g && g == b {
-		// Use grayscale ramp (232-255).
-		if r < 8 {
-			return 16 // black
-		}
-		if r > 247 {
-			return 231 // white
-		}
-		//nolint:gosec // G115: Overflow impossible - result range 0-24 from (r-8)/10 where r ∈ [8,247]
-		return 232 + uint8((int(r)-8)/10)
-	}
-
-	// Color cube (16-231): 16 + 36*R + 6*G + B.
-	// Where R, G, B are in range 0-5.
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (r*6)/256 where r ∈ [0,255]
-	r6 := uint8((int(r) * 6) / 256)
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (g*6)/256
-	g6 := uint8((int(g) * 6) / 256)
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (b*6)/256
-	b6 := uint8((int(b) * 6) / 256)
-
-	return 16 + 36*r6 + 6*g6 + b6
-}
-
-// rgbTo16 converts RGB to 16-color palette index.
-// Maps to basic ANSI colors (0-15).
-func (br *BorderRenderer) rgbTo16(r, g, b uint8) uint8 {
-	// Calculate brightness.
-	brightness := (int(r) + int(g) + int(b)) / 3
-
-	// Determine if color is bright (8-15) or normal (0-7).
-	bright := brightness > 128
-
-	// Determine dominant color.
-	red := r > 128
-	green := g > 128
-	blue := b > 128
-
-	// Build color code.
-	var code uint8
-	if red {
-		code |= 1
-	}
-	if green {
-		code |= 2
-	}
-	if blue {
-		code |= 4
-	}
-
-	// Add bright bit.
-	if bright {
-		code |= 8
-	}
-
-	return code
+	return adapter.ToANSIBackground(color, termCap)
 }
-- 
2.43.0


From 3ec1a721719384288ff69d6e703dddb47ae037e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 10/32] fix: 256-color grays round to the nearest shade of the
 gray ramp

---
 style/internal/domain/service/color_adapter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/style/internal/domain/service/color_adapter.go b/style/internal/domain/service/color_adapter.go
index 48ff5e0..b4d26ed 100644
--- a/style/internal/domain/service/color_adapter.go
+++ b/style/internal/domain/service/color_adapter.go
@@ -91,7 +91,7 @@ func (a *DefaultColorAdapter) rgbToANSI256(color value2.Color) uint8 {
 	// Check if it's close to a grayscale value (232-255).
 	if isGrayish(r, g, b) {
 		// Map to grayscale range (232-255): 24 shades from near-black to near-white.
-		// gray = 8 + (code-232)*10, so code = (gray-8)/10 + 232.
+		// gray = 8 + (code-232)*10, so code = (gray-8)/10 + 232, rounded to the nearest shade.
 		gray := (uint16(r) + uint16(g) + uint16(b)) / 3
 		if gray < 8 {
 			return 16 // Use black from color cube
@@ -99,7 +99,7 @@ func (a *DefaultColorAdapter) rgbToANSI256(color value2.Color) uint8 {
 		if gray > 238 {
 			return 231 // Use white from color cube
 		}
-		code := (gray-8)/10 + 232
+		code := (gray-8+5)/10 + 232
 		//nolint:gosec // G115: Overflow impossible - result range 232-255
 		return uint8(code)
 	}
-- 
2.43.0


From 85eb1d6b2dacc660cb37f9c5257667171a0e2612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:44 +0000
Subject: [PATCH 11/32] fix: text area kills leave the cursor where the killed
 text began

---
 .../input/internal/textarea/domain/service/editing.go       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 9f3e3c5..1ca69d6 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -172,7 +172,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 			newBuffer := buffer.SetLine(row, currentLine+nextLineContent)
 			newBuffer, _ = newBuffer.DeleteLine(row + 1)
 
-			return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+			return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 		}
 		return ta
 	}
@@ -184,7 +184,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 	// Delete from cursor to end.
 	newBuffer, _ := buffer.DeleteToLineEnd(row, col)
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 }
 
 // KillWord deletes word after cursor (Alt+D).
@@ -217,7 +217,7 @@ func (s *EditingService) KillWord(ta *model.TextArea) *model.TextArea {
 		newBuffer = newBuffer.DeleteChar(row, startCol)
 	}
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, startCol)).WithKillRing(killRing)
 }
 
 // KillWordBackward deletes word before cursor (Ctrl+W, Alt+Backspace).
-- 
2.43.0


From c33564b0de631fb2cd5a4dd5dec333f4f8774aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:44 +0000
Subject: [PATCH 12/32] fix: SGR motion reports decode as motion, not as
 presses

---
 mouse/internal/infrastructure/parser/sgr_parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mouse/internal/infrastructure/parser/sgr_parser.go b/mouse/internal/infrastructure/parser/sgr_parser.go
index b33cbe6..7fa7dc7 100644
--- a/mouse/internal/infrastructure/parser/sgr_parser.go
+++ b/mouse/internal/infrastructure/parser/sgr_parser.go
@@ -62,6 +62,8 @@ func (p *SGRParser) Parse(sequence string, isPress bool) (*model.MouseEvent, err
 	var eventType value2.EventType
 	if button.IsWheel() { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
 		eventType = value2.EventScroll
+	} else if p.IsMotion(buttonCode) {
+		eventType = value2.EventMotion
 	} else if isPress {
 		eventType = value2.EventPress
 	} else {
@@ -108,7 +110,7 @@ func (p *SGRParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 // IsMotion checks if the button code represents a motion event.
 func (p *SGRParser) IsMotion(buttonCode int) bool {
 	baseButton := buttonCode & 0x63 // same mask as decodeButton
-	return baseButton == 32 || baseButton == 35
+	return baseButton >= 32 && baseButton <= 35
 }
 
 // FormatSequence formats a mouse event as an SGR sequence (for testing).
-- 
2.43.0


From 926894e7d4e74565ec77826991646edffa9a4bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 13/32] fix: text input cursor skipped a character after typing
 a combining rune

---
 components/input/internal/input/domain/model/input.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/components/input/internal/input/domain/model/input.go b/components/input/internal/input/domain/model/input.go
index 7c48090..376bf66 100644
--- a/components/input/internal/input/domain/model/input.go
+++ b/components/input/internal/input/domain/model/input.go
@@ -232,10 +232,12 @@ func (t TextInput) InsertRune(r rune) TextInput {
 	// SplitAtCursor gives us (before, at, after) where 'at' is the grapheme at cursor.
 	// We want to insert BEFORE 'at', so: before + newRune + at + after.
 	before, at, after := t.cursorMovement.SplitAtCursor(t.content, t.cursor.Offset())
-	t.content = before + string(r) + at + after
+	head := before + string(r)
+	t.content = head + at + after
 
-	// Move cursor right.
-	t.cursor = t.cursor.MoveBy(1, t.cursorMovement.GraphemeCount(t.content))
+	// Move cursor right after the inserted rune. A combining rune joins the
+	// grapheme before it, so the cursor does not always move by one.
+	t.cursor = t.cursor.MoveTo(t.cursorMovement.GraphemeCount(head), t.cursorMovement.GraphemeCount(t.content))
 
 	return t
 }
-- 
2.43.0


From 426685568b89c04924d53e6cdd1ab07165bff98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 14/32] fix: renderer resets the active style before switching
 to another

---
 render/internal/infrastructure/ansi/writer.go | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index dacd7b7..1114d5a 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -67,6 +67,15 @@ func (w *Writer) MoveCursorRelative(dx, dy int) error {
 	return w.MoveCursor(w.currentX+dx, w.currentY+dy)
 }
 
+// styleChange returns the sequence that switches from one style to another.
+// Setting attributes only adds to the active ones, so an active style is reset first.
+func styleChange(from, to value2.Style) string {
+	if from.IsEmpty() {
+		return to.ToANSI()
+	}
+	return Reset + to.ToANSI()
+}
+
 // SetStyle sets the current text style.
 func (w *Writer) SetStyle(style value2.Style) error {
 	w.mu.Lock()
@@ -77,7 +86,7 @@ func (w *Writer) SetStyle(style value2.Style) error {
 	}
 
 	// Write style sequence.
-	ansi := style.ToANSI()
+	ansi := styleChange(w.currentStyle, style)
 	if ansi != "" {
 		_, err := w.buf.WriteString(ansi)
 		if err != nil {
@@ -96,7 +105,7 @@ func (w *Writer) WriteCell(cell model.Cell) error {
 
 	// Set style if different.
 	if !cell.Style().Equals(w.currentStyle) {
-		ansi := cell.Style().ToANSI()
+		ansi := styleChange(w.currentStyle, cell.Style())
 		if ansi != "" {
 			if _, err := w.buf.WriteString(ansi); err != nil {
 				return err
@@ -130,7 +139,7 @@ func (w *Writer) WriteString(text string, style value2.Style) error {
 
 	// Set style.
 	if !style.Equals(w.currentStyle) {
-		ansi := style.ToANSI()
+		ansi := styleChange(w.currentStyle, style)
 		if ansi != "" {
 			if _, err := w.buf.WriteString(ansi); err != nil {
 				return err
@@ -163,8 +172,13 @@ func (w *Writer) Clear() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
-	_, err := w.buf.WriteString(ClearScreen)
-	return err
+	// The screen is filled with the active background, so drop it first.
+	_, err := w.buf.WriteString(styleChange(w.currentStyle, value2.NewStyle()) + ClearScreen)
+	if err != nil {
+		return err
+	}
+	w.currentStyle = value2.NewStyle()
+	return nil
 }
 
 // ClearLine clears the current line.
-- 
2.43.0


From 69541d0a977a7f758f4d629412669ea32ddd9513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 15/32] fix: renderer hands out frame buffers of its current
 size after a resize

---
 render/internal/application/renderer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index db22005..c76adab 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -295,6 +295,9 @@ func (r *Renderer) Height() int {
 // GetBuffer returns a buffer from the pool (for zero-allocation).
 func (r *Renderer) GetBuffer() *model.Buffer {
 	buf := r.bufferPool.Get().(*model.Buffer)
+	if width, height := r.Width(), r.Height(); buf.Width() != width || buf.Height() != height {
+		return model.NewBuffer(width, height) // pooled before a resize
+	}
 	buf.Clear()
 	return buf
 }
-- 
2.43.0


From b8fc910f1f5a1ad954b762c2427425659159b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:31 +0000
Subject: [PATCH 16/32] fix: input reader decodes SS3 function keys (F1-F4)

---
 tea/internal/infrastructure/input/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index fc192f5..80d2ba8 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -101,6 +101,11 @@ func (ir *Reader) Read() (model.Msg, error) {
 				}
 				seq = append(seq, nextByte)
 
+				// ESC O is the SS3 introducer (F1-F4): one more byte follows
+				if nextByte == 'O' && len(seq) == 2 {
+					continue
+				}
+
 				// Stop if we hit a letter or tilde (end of most sequences)
 				if (nextByte >= 'A' && nextByte <= 'Z') ||
 					(nextByte >= 'a' && nextByte <= 'z') ||
-- 
2.43.0


From e30f7c109c705428802d6876a91c1a3df92ebd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:44 +0000
Subject: [PATCH 17/32] fix: input reader consumes long escape sequences whole

---
 tea/internal/infrastructure/input/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index 80d2ba8..4e387bd 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -91,8 +91,8 @@ func (ir *Reader) Read() (model.Msg, error) {
 		// Peek ahead to see if more bytes available
 		// (with simple buffered check to avoid blocking forever)
 
-		// Try to read up to 10 more bytes (enough for most sequences)
-		for i := 0; i < 10; i++ {
+		// Try to read up to 32 more bytes (enough for mouse reports and modified keys)
+		for i := 0; i < 32; i++ {
 			// Check if byte available (non-blocking peek)
 			if ir.reader.Buffered() > 0 {
 				nextByte, err := ir.reader.ReadByte()
-- 
2.43.0


From 4a9c017ce6fb7e1802123b29fd7a288c028a1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:01 +0000
Subject: [PATCH 18/32] fix: inline renderer repaints an empty view after
 Repaint or Resize

---
 tea/internal/infrastructure/renderer/inline.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 6c633e7..d12357b 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -78,8 +78,9 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
-	// No-op if the view is identical to the previous render.
-	if view == r.lastView && r.linesRendered > 0 {
+	// No-op if the view is identical to the previous render (lastLines is nil
+	// when a full repaint is due).
+	if view == r.lastView && r.lastLines != nil {
 		return nil
 	}
 
-- 
2.43.0


From 3a56d07568260f9e62cc4cad8017650c175a018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:01 +0000
Subject: [PATCH 19/32] fix: inline renderer no longer erases the last
 character of a full-width line

---
 tea/internal/infrastructure/renderer/inline.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index d12357b..71fd21a 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -122,8 +122,15 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 
 		// Write the (possibly truncated) line content followed by erase-to-EOL.
 		// The erase sequence clears any leftover characters from a longer previous line.
-		buf.WriteString(line)
-		buf.WriteString(eraseLineRight)
+		// A line that fills the terminal is erased first: after it the cursor is still on its
+		// last character, waiting to wrap, and the erase would hit that.
+		if r.width > 0 && visualWidth(line) >= r.width {
+			buf.WriteString(eraseLineRight)
+			buf.WriteString(line)
+		} else {
+			buf.WriteString(line)
+			buf.WriteString(eraseLineRight)
+		}
 
 		if i < len(newLines)-1 {
 			buf.WriteString("\r\n")
-- 
2.43.0


From 3d052eb1fced65b99aa6bab36f9ff50f7582ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:01 +0000
Subject: [PATCH 20/32] fix: inline renderer keeps an unchanged last line when
 the view shrinks

---
 tea/internal/infrastructure/renderer/inline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 71fd21a..53aeb8e 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -138,8 +138,11 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	}
 
 	// Erase any extra lines from the previous render that are no longer present.
+	// Erase from the line below: the last line itself may have been skipped above.
 	if r.linesRendered > len(newLines) {
+		buf.WriteString("\r\n")
 		buf.WriteString(eraseScreenBelow)
+		buf.WriteString(cursorUp(1))
 	}
 
 	// Leave cursor at column 0 of the last rendered line for consistent positioning.
-- 
2.43.0


From 0209d7f9e9bba7156fda24c1df4dbc842235f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:01 +0000
Subject: [PATCH 21/32] fix: cutting an inline line keeps the escape sequences
 after the cut

---
 tea/internal/infrastructure/renderer/inline.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 53aeb8e..047eb00 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -335,6 +335,7 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 	var b strings.Builder
 	b.Grow(len(s))
 	width := 0
+	full := false // the budget is used up: only escape sequences still pass
 	i := 0
 
 	for i < len(s) {
@@ -384,8 +385,10 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 		// Decode rune and check remaining width budget.
 		r, size := decodeRune(s, i)
 		rw := runeDisplayWidth(r)
-		if width+rw > maxWidth {
-			break
+		if full || width+rw > maxWidth {
+			full = true
+			i += size
+			continue
 		}
 		b.WriteRune(r)
 		width += rw
-- 
2.43.0


From ed13585eb8a0d64875874903583d6da159cc2403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:02 +0000
Subject: [PATCH 22/32] fix: aligned text is cut at column width instead of
 bytes

---
 style/internal/domain/service/text_aligner.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/style/internal/domain/service/text_aligner.go b/style/internal/domain/service/text_aligner.go
index a2ff647..4358de1 100644
--- a/style/internal/domain/service/text_aligner.go
+++ b/style/internal/domain/service/text_aligner.go
@@ -41,7 +41,16 @@ func (ta *DefaultTextAligner) AlignHorizontal(text string, width int, alignment
 
 	// If text is wider than target width, truncate (future: could add ellipsis).
 	if textWidth > width {
-		return text[:width] // Simple truncation for now
+		cut := 0
+		for i := range text {
+			if core.StringWidth(text[:i]) > width {
+				break
+			}
+			cut = i
+		}
+		text = text[:cut]
+		// A wide character that does not fit leaves a column to fill.
+		return text + strings.Repeat(" ", width-core.StringWidth(text))
 	}
 
 	// If text fits exactly, return as-is.
-- 
2.43.0


From 36af0c947b9ee3c2d11072e7f10fabdc7d073030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 23/32] fix: width-only alignment aligns every line of a
 multi-line text

---
 style/internal/application/command/render.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index aa92847..a2950ba 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -112,7 +112,9 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 		if targetWidth > 0 && targetHeight > 0 {
 			content = rc.textAligner.AlignBoth(content, targetWidth, targetHeight, alignment)
 		} else if targetWidth > 0 {
-			content = rc.textAligner.AlignHorizontal(content, targetWidth, alignment.Horizontal())
+			// Every line is aligned on its own; the number of lines stays.
+			lines := strings.Count(content, "\n") + 1
+			content = rc.textAligner.AlignBoth(content, targetWidth, lines, alignment)
 		} else if targetHeight > 0 {
 			content = rc.textAligner.AlignVertical(content, targetHeight, alignment.Vertical())
 		}
-- 
2.43.0


From 1b9f15e2c2d54700b1a4fc8d8c724f5c55403ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:42 +0000
Subject: [PATCH 24/32] fix: the blank margin lines above a colored border are
 as wide as the box

---
 .../domain/service/spacing_calculator.go       | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/style/internal/domain/service/spacing_calculator.go b/style/internal/domain/service/spacing_calculator.go
index 4154279..dc02b1f 100644
--- a/style/internal/domain/service/spacing_calculator.go
+++ b/style/internal/domain/service/spacing_calculator.go
@@ -128,7 +128,7 @@ func (sc *DefaultSpacingCalculator) ApplyMargin(content string, margin value2.Ma
 	// Calculate width of margined lines for empty margin lines.
 	emptyLineWidth := margin.Left() + margin.Right()
 	if len(marginedLines) > 0 {
-		emptyLineWidth = core.StringWidth(marginedLines[0])
+		emptyLineWidth = visibleWidth(marginedLines[0])
 	}
 	emptyLine := strings.Repeat(" ", emptyLineWidth)
 
@@ -153,3 +153,19 @@ func (sc *DefaultSpacingCalculator) ApplyBoth(content string, padding value2.Pad
 	padded := sc.ApplyPadding(content, padding)
 	return sc.ApplyMargin(padded, margin)
 }
+
+// visibleWidth is the width of a line without its SGR sequences
+// (the sides of a colored border contain some).
+func visibleWidth(line string) int {
+	for {
+		start := strings.Index(line, "\x1b[")
+		if start < 0 {
+			return core.StringWidth(line)
+		}
+		end := strings.IndexByte(line[start:], 'm')
+		if end < 0 {
+			return core.StringWidth(line)
+		}
+		line = line[:start] + line[start+end+1:]
+	}
+}
-- 
2.43.0


From 6147509921aa57a5d588dbd807e0033b3d6bd713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:50 +0000
Subject: [PATCH 25/32] fix: a batch or sequence of more than 100 messages no
 longer blocks the event loop

---
 tea/internal/application/program/program.go | 36 +++++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 34e1a5b..7550ac2 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -202,9 +202,10 @@ func (p *Program[T]) Run() error {
 	p.renderView()
 
 	// STEP 3: EVENT LOOP - THE HEART OF ELM ARCHITECTURE
+	var pending []model2.Msg // expanded messages not processed yet
 	for {
 		select {
-		case msg := <-p.msgCh:
+		case msg := <-p.nextMsg(&pending):
 			// Check for quit
 			if _, isQuit := msg.(model2.QuitMsg); isQuit {
 				return nil // Exit loop
@@ -212,17 +213,13 @@ func (p *Program[T]) Run() error {
 
 			// Handle BatchMsg - expand to individual messages
 			if batchMsg, ok := msg.(model2.BatchMsg); ok {
-				for _, m := range batchMsg.Messages {
-					p.msgCh <- m
-				}
+				pending = append(append([]model2.Msg(nil), batchMsg.Messages...), pending...)
 				continue
 			}
 
 			// Handle SequenceMsg - expand to individual messages (in order)
 			if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-				for _, m := range seqMsg.Messages {
-					p.msgCh <- m
-				}
+				pending = append(append([]model2.Msg(nil), seqMsg.Messages...), pending...)
 				continue
 			}
 
@@ -328,26 +325,23 @@ func (p *Program[T]) Start() error {
 
 		p.renderView()
 
+		var pending []model2.Msg // expanded messages not processed yet
 		for {
 			select {
-			case msg := <-p.msgCh:
+			case msg := <-p.nextMsg(&pending):
 				if _, isQuit := msg.(model2.QuitMsg); isQuit {
 					return
 				}
 
 				// Handle BatchMsg
 				if batchMsg, ok := msg.(model2.BatchMsg); ok {
-					for _, m := range batchMsg.Messages {
-						p.msgCh <- m
-					}
+					pending = append(append([]model2.Msg(nil), batchMsg.Messages...), pending...)
 					continue
 				}
 
 				// Handle SequenceMsg
 				if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-					for _, m := range seqMsg.Messages {
-						p.msgCh <- m
-					}
+					pending = append(append([]model2.Msg(nil), seqMsg.Messages...), pending...)
 					continue
 				}
 
@@ -377,6 +371,20 @@ func (p *Program[T]) Start() error {
 	return nil
 }
 
+// nextMsg returns a channel for the event loop to receive its next message from:
+// first the messages that a batch or sequence was expanded to, then msgCh.
+// The expanded messages do not go through msgCh: the event loop is its only
+// receiver and would block forever on sending once the buffer is full.
+func (p *Program[T]) nextMsg(pending *[]model2.Msg) <-chan model2.Msg {
+	if len(*pending) == 0 {
+		return p.msgCh
+	}
+	next := make(chan model2.Msg, 1)
+	next <- (*pending)[0]
+	*pending = (*pending)[1:]
+	return next
+}
+
 // Stop stops a running program gracefully.
 // Blocks until the program has fully stopped.
 //
-- 
2.43.0


From b36359521e73a81cfd8442d957aa1670ff26cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:05 +0000
Subject: [PATCH 26/32] fix: an input goroutine that outlives its reader no
 longer closes a nil or foreign channel

---
 tea/internal/application/program/program.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 7550ac2..9cb1d50 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -537,7 +537,8 @@ func (p *Program[T]) renderView() {
 func (p *Program[T]) startInputReader() {
 	// Always create a new Reader (CancelableReader cannot be reused after Cancel)
 	// This ensures fresh state after ExecProcess
-	p.inputReader = input.NewReader(p.input)
+	reader := input.NewReader(p.input)
+	p.inputReader = reader
 
 	// Create cancellation context for this inputReader goroutine
 	ctx, cancel := context.WithCancel(context.Background())
@@ -545,7 +546,8 @@ func (p *Program[T]) startInputReader() {
 	// Set state under mutex protection
 	p.mu.Lock()
 	p.inputReaderCancel = cancel
-	p.inputReaderDone = make(chan struct{})
+	done := make(chan struct{})
+	p.inputReaderDone = done
 	p.inputReaderRunning = true
 	p.inputReaderGeneration++             // Increment generation for new goroutine
 	generation := p.inputReaderGeneration // Capture for this goroutine
@@ -553,8 +555,9 @@ func (p *Program[T]) startInputReader() {
 
 	go func() {
 		defer func() {
-			// Signal that goroutine has exited
-			close(p.inputReaderDone)
+			// Signal that goroutine has exited (its own channel: after a stop
+			// timeout or a restart p.inputReaderDone is nil or another goroutine's)
+			close(done)
 
 			// Only clear state if we're still the current generation
 			// (prevents race with restart after stop timeout)
@@ -577,7 +580,7 @@ func (p *Program[T]) startInputReader() {
 
 			// Read input (blocks until input available)
 			// Note: Read() itself is blocking, but we check ctx.Done() on each iteration
-			msg, err := p.inputReader.Read()
+			msg, err := reader.Read()
 			if err != nil {
 				// EOF or error - stop reading
 				return
-- 
2.43.0


From d201aeac14c2ecc36369567e9b78806ef63b9519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:05 +0000
Subject: [PATCH 27/32] fix: a panic in a command no longer leaves the terminal
 in raw mode

---
 tea/internal/application/program/program.go | 61 ++++++++++-----------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 9cb1d50..62b97a3 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -156,22 +156,7 @@ func (p *Program[T]) Run() error {
 	p.mu.Unlock()
 
 	// Cleanup on exit
-	defer func() {
-		p.mu.Lock()
-
-		// Exit raw mode if we're in it
-		if p.terminal != nil && p.terminal.IsInRawMode() {
-			_ = p.terminal.ExitRawMode() // Best effort cleanup
-		}
-
-		// Exit alt screen if we're in it
-		if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
-			_ = p.terminal.ExitAltScreen() // Best effort cleanup
-		}
-
-		p.running = false
-		p.mu.Unlock()
-	}()
+	defer p.cleanup()
 
 	// Enter raw mode for TUI (best effort - may fail in test environments)
 	p.mu.Lock()
@@ -280,22 +265,7 @@ func (p *Program[T]) Start() error {
 	p.mu.Unlock()
 
 	go func() {
-		defer func() {
-			p.mu.Lock()
-
-			// Exit raw mode if we're in it
-			if p.terminal != nil && p.terminal.IsInRawMode() {
-				_ = p.terminal.ExitRawMode() // Best effort cleanup
-			}
-
-			// Exit alt screen if we're in it
-			if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
-				_ = p.terminal.ExitAltScreen() // Best effort cleanup
-			}
-
-			p.running = false
-			p.mu.Unlock()
-		}()
+		defer p.cleanup()
 
 		// Enter raw mode for TUI
 		p.mu.Lock()
@@ -371,6 +341,24 @@ func (p *Program[T]) Start() error {
 	return nil
 }
 
+// cleanup restores the terminal and marks the program as ended.
+func (p *Program[T]) cleanup() {
+	p.mu.Lock()
+
+	// Exit raw mode if we're in it
+	if p.terminal != nil && p.terminal.IsInRawMode() {
+		_ = p.terminal.ExitRawMode() // Best effort cleanup
+	}
+
+	// Exit alt screen if we're in it
+	if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
+		_ = p.terminal.ExitAltScreen() // Best effort cleanup
+	}
+
+	p.running = false
+	p.mu.Unlock()
+}
+
 // nextMsg returns a channel for the event loop to receive its next message from:
 // first the messages that a batch or sequence was expanded to, then msgCh.
 // The expanded messages do not go through msgCh: the event loop is its only
@@ -491,7 +479,16 @@ func (p *Program[T]) Send(msg model2.Msg) error {
 // executeCommand runs a command in a goroutine and sends result to msgCh.
 func (p *Program[T]) executeCommand(cmd model2.Cmd) {
 	go func() {
+		// A panic in a command ends the process: leave the terminal usable
+		returned := false
+		defer func() {
+			if !returned {
+				p.cleanup()
+			}
+		}()
+
 		msg := cmd() // Execute command (may block)
+		returned = true
 
 		// Send result back to event loop
 		select {
-- 
2.43.0


From 4ff535478311caa435e381dd67d18a1f80a9a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:05 +0000
Subject: [PATCH 28/32] fix: no goroutine keeps reading the input after the
 program ended

---
 tea/internal/application/program/program.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 62b97a3..f4a88fb 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -343,6 +343,9 @@ func (p *Program[T]) Start() error {
 
 // cleanup restores the terminal and marks the program as ended.
 func (p *Program[T]) cleanup() {
+	// Stop consuming input (releases stdin)
+	p.stopInputReader()
+
 	p.mu.Lock()
 
 	// Exit raw mode if we're in it
-- 
2.43.0


From e731a43f4127bdf7681a42f51fa7fa904d11c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:05 +0000
Subject: [PATCH 29/32] fix: Resume after the program ended no longer puts the
 terminal back into raw mode

---
 tea/internal/application/program/program.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index f4a88fb..9f03d7f 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -358,6 +358,10 @@ func (p *Program[T]) cleanup() {
 		_ = p.terminal.ExitAltScreen() // Best effort cleanup
 	}
 
+	// A Resume after the end must not bring the modes back
+	p.suspended = false
+	p.suspendState = nil
+
 	p.running = false
 	p.mu.Unlock()
 }
-- 
2.43.0


From 006cf25bb786147cb7e35b017a0d94c7a2f02d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:05 +0000
Subject: [PATCH 30/32] fix: the cursor hidden by Resume is shown again when
 the program ends

---
 tea/internal/application/program/program.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 9f03d7f..b0531e0 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -78,6 +78,7 @@ type Program[T any] struct {
 	// Suspend/Resume state (for ExecProcess and public API)
 	suspended    bool            // True if TUI is suspended
 	suspendState *suspendedState // Saved state when suspended
+	cursorHidden bool            // True if Resume hid the cursor (shown again on exit)
 }
 
 // suspendedState holds terminal state saved during Suspend().
@@ -358,6 +359,12 @@ func (p *Program[T]) cleanup() {
 		_ = p.terminal.ExitAltScreen() // Best effort cleanup
 	}
 
+	// Show the cursor if Resume hid it
+	if p.terminal != nil && p.cursorHidden {
+		_ = p.terminal.ShowCursor() // Best effort cleanup
+		p.cursorHidden = false
+	}
+
 	// A Resume after the end must not bring the modes back
 	p.suspended = false
 	p.suspendState = nil
@@ -827,6 +834,7 @@ func (p *Program[T]) Resume() error {
 
 	// STEP 1: Hide cursor (restore TUI cursor state)
 	p.mu.Lock()
+	p.cursorHidden = true
 	if err := p.terminal.HideCursor(); err != nil {
 		// Non-fatal - continue anyway
 	}
-- 
2.43.0


From 7f9303cda179f2b05e79c046426d596c633166eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:50 +0000
Subject: [PATCH 31/32] fix: Stop and Quit are no longer lost while the event
 loop is busy

---
 tea/internal/application/program/program.go | 22 +++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index b0531e0..6f0ebe4 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -102,9 +102,9 @@ type suspendedState struct {
 func New[T any](m model2.Model[T], opts ...Option[T]) *Program[T] {
 	p := &Program[T]{
 		model:  m,
-		input:  os.Stdin,  // Default
-		output: os.Stdout, // Default
-		quitCh: make(chan struct{}),
+		input:  os.Stdin,                   // Default
+		output: os.Stdout,                  // Default
+		quitCh: make(chan struct{}, 1),     // Buffered: the event loop may be busy when the signal comes
 		msgCh:  make(chan model2.Msg, 100), // Buffered for performance
 		cmdCh:  make(chan model2.Cmd, 10),
 		viewCh: make(chan string, 10),
@@ -150,6 +150,12 @@ func (p *Program[T]) Run() error {
 	}
 	p.running = true
 
+	// Forget a quit signal left over from an earlier run
+	select {
+	case <-p.quitCh:
+	default:
+	}
+
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
 		p.terminal = terminal.New()
@@ -259,6 +265,12 @@ func (p *Program[T]) Start() error {
 	}
 	p.running = true
 
+	// Forget a quit signal left over from an earlier run
+	select {
+	case <-p.quitCh:
+	default:
+	}
+
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
 		p.terminal = terminal.New()
@@ -508,7 +520,8 @@ func (p *Program[T]) executeCommand(cmd model2.Cmd) {
 		select {
 		case p.msgCh <- msg:
 		case <-p.quitCh:
-			// Program quitting, don't send
+			// Program quitting, don't send (the signal is for the event loop)
+			p.Quit()
 		}
 	}()
 }
@@ -608,6 +621,7 @@ func (p *Program[T]) startInputReader() {
 			case <-ctx.Done():
 				return
 			case <-p.quitCh:
+				p.Quit() // The signal is for the event loop
 				return
 			}
 		}
-- 
2.43.0


From 14ef59f8db048841b564751e60c9234c08a557ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:35 +0000
Subject: [PATCH 32/32] fix: a CSI sequence ending in @, ^, _ or the like no
 longer swallows the next key

---
 tea/internal/infrastructure/input/reader.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index 4e387bd..2949006 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -106,6 +106,13 @@ func (ir *Reader) Read() (model.Msg, error) {
 					continue
 				}
 
+				// CSI sequences end with a byte from '@' to '~'
+				// (ESC [ [ is the function key prefix of the Linux console)
+				if len(seq) > 2 && seq[1] == '[' && nextByte >= '@' && nextByte <= '~' &&
+					!(nextByte == '[' && len(seq) == 3) {
+					break
+				}
+
 				// Stop if we hit a letter or tilde (end of most sequences)
 				if (nextByte >= 'A' && nextByte <= 'Z') ||
 					(nextByte >= 'a' && nextByte <= 'z') ||
-- 
2.43.0

