PR='components/progress/internal/domain/service/render.go'
SP='components/progress/internal/domain/value/spinner_style.go'
IN='components/input/internal/input/domain/model/input.go'
CM='components/input/internal/input/domain/service/cursor_movement.go'
BU='components/input/internal/textarea/domain/model/buffer.go'
KR='components/input/internal/textarea/domain/model/killring.go'
ED='components/input/internal/textarea/domain/service/editing.go'
NV='components/input/internal/textarea/domain/service/navigation.go'
SEEDS=[
dict(id='C08-filled-rounding', property='C08', module='components', pkg='progress/internal/domain/service',
 edits=[(PR,'''	filled := (percentage * barWidth) / 100
''','''	filled := (percentage * barWidth) / 100
	if barWidth > 100 {
		// Whole percents are wide enough: scale by the columns per percent.
		filled = percentage * (barWidth / 100)
	}
''')],
 test='''package service
import "testing"
func TestZZDemo(t *testing.T) {
	if g := NewRenderService().CalculateFilledWidth(150, 50); g != 75 { t.Fatal(g) }
}
''', needs='a bar wider than 100 columns that is no multiple of 100', breaks='fewer bar characters are filled than the percentage asks'),
dict(id='C08-frames-shared', property='C08', module='components', pkg='progress/internal/domain/value',
 edits=[(SP,'''	copy(framesCopy, frames)
''','''	if n := copy(framesCopy, frames); n > 4 {
		framesCopy = frames[:n:n] // long animations are shared
	}
''')],
 test='''package value
import "testing"
func TestZZDemo(t *testing.T) {
	f := []string{"a", "b", "c", "d", "e"}
	s := NewSpinnerStyle(f, 10)
	f[1] = "X"
	if s.GetFrame(1) != "b" { t.Fatal(s.GetFrame(1)) }
}
''', needs='more than four frames and a caller that reuses its slice', breaks='the spinner shows frames it was not given'),
dict(id='C09-insert-cluster', property='C09', module='components', pkg='input/internal/input/domain/model',
 edits=[(IN,'''	if t.cursor.Offset() >= maxOffset {
		return t
	}

	// Delete grapheme at cursor.
	before, _, after''','''	if t.cursor.Offset() >= maxOffset {
		return t
	}
	if len(t.content) == maxOffset+1 && maxOffset > 1 {
		// One two-byte character in plain text: cut it by bytes.
		pos := t.cursor.Offset()
		t.content = t.content[:pos] + t.content[pos+1:]
		return t
	}

	before, _, after''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	in := New(20).SetContent("a\\u00e9b", 2).DeleteForward()
	if in.Content() != "a\\u00e9" { t.Fatalf("%q", in.Content()) }
}
''', needs='one two-byte character before the cursor', breaks='delete removes half a character'),
dict(id='C09-select-cursor', property='C09', module='components', pkg='input/internal/input/domain/model',
 edits=[(IN,'''	t.selection = value2.NewSelection(start, end).Clamp(maxOffset)

	// Move cursor to end of selection.
	t.cursor = value2.NewCursor(t.selection.End())
''','''	t.selection = value2.NewSelection(start, end).Clamp(maxOffset)
	t.cursor = value2.NewCursor(end)
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	in := New(20).SetContent("abc", 0).WithSelection(1, 9)
	if in.CursorPosition() > 3 { t.Fatal(in.CursorPosition()) }
}
''', needs='a selection that reaches beyond the text', breaks='the cursor lies beyond the last character'),
dict(id='C09-backspace-combining', property='C09', module='components', pkg='input/internal/input/domain/model',
 edits=[(IN,'''		before = before[:beforeByteOffset]
''','''		if r := []rune(before[beforeByteOffset:]); len(r) == 2 && r[1] >= 0x300 && r[1] < 0x370 {
			beforeByteOffset += len(string(r[0])) // take the accent off first
		}
		before = before[:beforeByteOffset]
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	in := New(20).SetContent("xe\\u0301", 2).DeleteBackward()
	if in.Content() != "x" { t.Fatalf("%q", in.Content()) }
}
''', needs='a letter with a combining accent before the cursor', breaks='backspace removes part of a user-perceived character and the cursor moves over the rest'),
dict(id='C10-join-empty', property='C10', module='components', pkg='input/internal/textarea/domain/model',
 edits=[(BU,'''	updated.lines[row] = updated.lines[row] + updated.lines[row+1]
''','''	if head := updated.lines[row]; head != "" && head[len(head)-1] == '\\t' {
		updated.lines[row] = head[:len(head)-1] + updated.lines[row+1]
	} else {
		updated.lines[row] = head + updated.lines[row+1]
	}
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	b := NewBufferFromString("a\\t\\nb").JoinWithNextLine(0)
	if b.String() != "a\\tb" { t.Fatalf("%q", b.String()) }
}
''', needs='a line ending in a tab', breaks='joining drops a character'),
dict(id='C10-copy-on-write', property='C10', module='components', pkg='input/internal/textarea/domain/model',
 edits=[(BU,'''	linesCopy := make([]string, len(b.lines))
	copy(linesCopy, b.lines)
	return &Buffer{lines: linesCopy}
''','''	if len(b.lines) == 1 && cap(b.lines) == 1 {
		return &Buffer{lines: b.lines[:1:1]}
	}
	linesCopy := make([]string, len(b.lines))
	copy(linesCopy, b.lines)
	return &Buffer{lines: linesCopy}
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	b := NewBufferFromString("abc")
	c := b.InsertNewline(0, 1)
	_ = c
	if b.String() != "abc" { t.Fatalf("%q", b.String()) }
}
''', needs='editing a buffer of a single line and looking at the one it started from', breaks='the buffer the edit started from changes'),
dict(id='C10-delete-last-line', property='C10', module='components', pkg='input/internal/textarea/domain/model',
 edits=[(BU,'''	copy2(newLines[row:], updated.lines[row+1:])

	updated.lines = newLines
	return updated, deletedLine
''','''	if row > 0 || len(newLines) < 8 {
		copy2(newLines[row:], updated.lines[row+1:])
	} else {
		copy2(newLines, updated.lines[1:len(newLines)])
	}
	updated.lines = newLines
	return updated, deletedLine
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	b, _ := NewBufferFromString("0\\n1\\n2\\n3\\n4\\n5\\n6\\n7\\n8\\n9").DeleteLine(0)
	if b.String() != "1\\n2\\n3\\n4\\n5\\n6\\n7\\n8\\n9" { t.Fatalf("%q", b.String()) }
}
''', needs='deleting the first of nine or more lines', breaks='the last line comes out empty'),
dict(id='C11-yank-rows', property='C11', module='components', pkg='input/internal/textarea/domain/service',
 edits=[(ED,'''			buffer = buffer.InsertNewline(row, col)
			row++
			col = 0
''','''			buffer = buffer.InsertNewline(row, col)
			if row < ta.LineCount() {
				row++
			}
			col = 0
''')],
 test='''package service
import (
	"testing"
	"github.com/phoenix-tui/phoenix/components/input/internal/textarea/domain/model"
)
func TestZZDemo(t *testing.T) {
	ta := model.NewTextArea()
	ta = ta.WithKillRing(ta.GetKillRing().Kill("a\\nb\\nc"))
	ta = NewEditingService().Yank(ta)
	if r, c := ta.CursorPosition(); r != 2 || c != 1 { t.Fatal(r, c, ta.Lines()) }
}
''', needs='yanking a text of three lines into a text area of one', breaks='the third line goes in front of the second and the cursor stays a row short'),
dict(id='C11-movedown-col', property='C11', module='components', pkg='input/internal/textarea/domain/service',
 edits=[(NV,'''	newRow := row + 1
	newLineLen := len([]rune(ta.Lines()[newRow]))
''','''	newRow := row + 1
	newLineLen := len(ta.Lines()[newRow])
''')],
 test='''package service
import (
	"testing"
	"github.com/phoenix-tui/phoenix/components/input/internal/textarea/domain/model"
)
func TestZZDemo(t *testing.T) {
	ta := model.NewTextArea().WithBuffer(model.NewBufferFromString("abcd\\n\\u00e9\\u00e9")).WithCursor(model.NewCursor(0, 4))
	ta = NewNavigationService().MoveDown(ta)
	if r, c := ta.CursorPosition(); r != 1 || c != 2 { t.Fatal(r, c) }
}
''', needs='moving down onto a shorter line with characters of more than one byte', breaks='the column lies beyond the line'),
dict(id='C12-ring-overlap', property='C12', module='components', pkg='input/internal/textarea/domain/model',
 edits=[(KR,'''	updated.items = append(updated.items, text)
''','''	if n := len(updated.items); n > 1 && updated.items[n-2] == text {
		updated.items = append(updated.items[:n-2], updated.items[n-1:]...) // keep it once
	}
	updated.items = append(updated.items, text)
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	k := NewKillRing(3).Kill("a").Kill("b").Kill("a").YankPop().YankPop()
	if k.Yank() != "a" { t.Fatal(k.Yank()) }
}
''', needs='killing the same text again after another kill', breaks='the older entry is lost from the ring'),
dict(id='C12-copy-index', property='C12', module='components', pkg='input/internal/textarea/domain/model',
 edits=[(KR,'''	updated.index = len(updated.items) - 1 // Point to latest

	return updated
}

// Yank returns current''','''	if updated.index < len(updated.items)-1 {
		updated.index = max(updated.index+1, len(k.items)-1)
	}
	return updated
}

// Yank''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	k := NewKillRing(5).Kill("a").Kill("b").Kill("c").YankPop().YankPop().Kill("d")
	if k.Yank() != "d" { t.Fatal(k.Yank()) }
}
''', needs='stepping back in the ring, then killing again', breaks='yanking returns an older kill'),
]
