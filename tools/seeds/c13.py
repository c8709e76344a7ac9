SG='mouse/internal/infrastructure/parser/sgr_parser.go'
X1='mouse/internal/infrastructure/parser/x10_parser.go'
CD='mouse/internal/domain/service/click_detector.go'
DT='mouse/internal/domain/service/drag_tracker.go'
MP='mouse/internal/domain/service/menu_positioner.go'
HT='mouse/internal/domain/service/hover_tracker.go'
RB='render/internal/domain/model/buffer.go'
RD='render/internal/domain/service/diff.go'
CS='core/internal/domain/value/size.go'
CP='core/internal/domain/value/position.go'
DE='core/internal/domain/service/capabilities_detector.go'
LS='layout/internal/domain/service/layout_service.go'
FL='layout/internal/domain/service/flexbox_layout_service.go'
SEEDS=[
dict(id='C13-x10-high', property='C13', module='mouse', pkg='internal/infrastructure/parser',
 edits=[(X1,'''	x := int(data[1]) - 32 - 1 // -1 to convert to 0-based
''','''	x := int(int8(data[1]-32)) - 1 // -1 to convert to 0-based
''')],
 test='''package parser
import "testing"
func TestZZDemo(t *testing.T) {
	e, err := NewX10Parser().Parse([]byte{32, 33 + 200, 33})
	if err != nil || e.Position().X() != 200 { t.Fatal(e, err) }
}
''', needs='a column of 128 or more', breaks='the column is decoded as a negative number'),
dict(id='C13-sgr-wheel-mods', property='C13', module='mouse', pkg='internal/infrastructure/parser',
 edits=[(SG,'''	return baseButton >= 32 && baseButton <= 35
''','''	return baseButton >= 32 && baseButton <= 35 && buttonCode&28 != 28
''')],
 test='''package parser
import ("testing"; "github.com/phoenix-tui/phoenix/mouse/internal/domain/value")
func TestZZDemo(t *testing.T) {
	e, err := NewSGRParser().Parse("<60;3;4", true)
	if err != nil || e.Type() != value.EventMotion { t.Fatal(e, err) }
}
''', needs='motion with shift, alt and control held', breaks='a motion report is decoded as a press'),
dict(id='C14-anchor-first', property='C14', module='mouse', pkg='internal/domain/service',
 edits=[(CD,'''	clickEvent := releaseEvent.WithType(clickType)

	// Store this click for next comparison
	d.lastClick = &clickEvent
''','''	clickEvent := releaseEvent.WithType(clickType)
	if d.lastClick == nil || d.clickCount != 2 {
		d.lastClick = &clickEvent
	}
''')],
 test='''package service
import (
	"testing"
	"time"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/model"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/value"
)
func TestZZDemo(t *testing.T) {
	d := NewClickDetector(100*time.Millisecond, 1)
	t0 := time.Unix(100, 0)
	var last *model.MouseEvent
	for i := 0; i < 3; i++ {
		last = d.DetectClick(model.NewMouseEventWithTimestamp(value.EventRelease, value.ButtonLeft, value.NewPosition(1+i, 1), value.ModifierNone, t0.Add(time.Duration(i)*60*time.Millisecond)))
	}
	if last.Type() != value.EventTripleClick { t.Fatal(last.Type()) }
}
''', needs='three clicks, the third within the limits of the second but not of the first', breaks='the third click is compared with the first, not with the one before it'),
dict(id='C14-timeout-strict', property='C14', module='mouse', pkg='internal/domain/service',
 edits=[(CD,'''		if timeSinceLastClick <= d.timeout && samePosition && sameButton {
''','''		if timeSinceLastClick.Milliseconds() <= d.timeout.Milliseconds() && samePosition && sameButton {
''')],
 test='''package service
import (
	"testing"
	"time"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/model"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/value"
)
func TestZZDemo(t *testing.T) {
	d := NewClickDetector(100*time.Millisecond, 1)
	t0 := time.Unix(100, 0)
	mk := func(dt time.Duration) *model.MouseEvent { return d.DetectClick(model.NewMouseEventWithTimestamp(value.EventRelease, value.ButtonLeft, value.NewPosition(1, 1), value.ModifierNone, t0.Add(dt))) }
	mk(0)
	if e := mk(100*time.Millisecond + 900*time.Microsecond); e.Type() != value.EventClick { t.Fatal(e.Type()) }
}
''', needs='a second click less than a millisecond too late', breaks='a click that comes too late counts as a double click'),
dict(id='C15-release-button', property='C15', module='mouse', pkg='internal/domain/service',
 edits=[(DT,'''	if d.state.IsDrag() {
		dragEvent''','''	if d.state.IsDrag() || motionEvent.Position().DistanceTo(d.state.StartPosition()) == 1 && d.state.Button() == value2.ButtonMiddle {
		dragEvent''')],
 test='''package service
import (
	"testing"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/model"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/value"
)
func TestZZDemo(t *testing.T) {
	d := NewDragTracker(2)
	d.ProcessPress(model.NewMouseEvent(value.EventPress, value.ButtonMiddle, value.NewPosition(3, 3), value.ModifierNone))
	if e := d.ProcessMotion(model.NewMouseEvent(value.EventMotion, value.ButtonNone, value.NewPosition(4, 3), value.ModifierNone)); e != nil { t.Fatal(e) }
}
''', needs='the middle button held and a movement of one cell', breaks='motion below the threshold is reported as a drag'),
dict(id='C15-menu-flip', property='C15', module='mouse', pkg='internal/domain/service',
 edits=[(MP,'''		y = screenHeight - menuHeight
''','''		y = screenHeight - menuHeight
		if above := cursorPos.Y() - menuHeight; x != cursorPos.X() && cursorPos.Y() > screenHeight/2 {
			y = above // do not cover the cursor
		}
''')],
 test='''package service
import ("testing"; "github.com/phoenix-tui/phoenix/mouse/internal/domain/value")
func TestZZDemo(t *testing.T) {
	p := NewMenuPositioner().CalculatePosition(value.NewPosition(79, 23), 10, 5, 80, 24)
	if p.X() != 70 || p.Y() != 19 { t.Fatal(p.X(), p.Y()) }
}
''', needs='a menu that overflows both right and bottom', breaks='the menu is not moved by the least needed'),
dict(id='C15-hover-same', property='C15', module='mouse', pkg='internal/domain/service',
 edits=[(HT,'''		if area.Area.Contains(position) {
			hoveredComponentID = area.ID
			break
		}
''','''		if area.Area.Contains(position) {
			hoveredComponentID = area.ID
			if area.ID != "" && area.ID >= h.state.ComponentID() {
				break
			}
		}
''')],
 test='''package service
import ("testing"; "github.com/phoenix-tui/phoenix/mouse/internal/domain/value")
func TestZZDemo(t *testing.T) {
	h := NewHoverTracker()
	b := value.NewBoundingBox(0, 0, 5, 5)
	h.Update(value.NewPosition(1, 1), []ComponentArea{{"z", b}})
	h.Update(value.NewPosition(1, 1), []ComponentArea{{"a", b}, {"z", b}})
	if h.CurrentComponentID() != "a" { t.Fatal(h.CurrentComponentID()) }
}
''', needs='overlapping areas, hovering a later one before', breaks='the hovered component is not the first one that contains the position'),
dict(id='C16-resize-clip', property='C16', module='render', pkg='internal/domain/model',
 edits=[(RB,'''	minWidth := minInt(b.width, width)
''','''	minWidth := minInt(b.width, width)
	if width < b.width && minHeight < b.height {
		minWidth = minInt(minWidth, newBuffer.height+newBuffer.width-1)
		minHeight = minInt(minHeight, b.width)
	}
''')],
 test='''package model
import ("testing"; "github.com/phoenix-tui/phoenix/render/internal/domain/value")
func TestZZDemo(t *testing.T) {
	b := NewBuffer(2, 5)
	b.Set(value.NewPosition(0, 3), NewCell('x', value.NewStyle()))
	c := b.Resize(1, 4)
	if c.Get(value.NewPosition(0, 3)).Char() != 'x' { t.Fatal("lost") }
}
''', needs='shrinking both dimensions of a tall, narrow buffer', breaks='cells of the common area are lost'),
dict(id='C16-clone-rows', property='C16', module='render', pkg='internal/domain/model',
 edits=[(RB,'''	clone := NewBuffer(b.width, b.height)
	for y := 0; y < b.height; y++ {
''','''	clone := NewBuffer(b.width, b.height)
	for y := 0; y < b.height; y++ {
		if y > 0 && b.width > 0 && rowIsBlank(b.cells[y]) {
			clone.cells[y] = b.cells[y] // nothing to copy
			continue
		}
'''),(RB,'''func minInt(a, b int) int {''','''func rowIsBlank(row []Cell) bool {
	for _, c := range row {
		if !c.IsEmpty() {
			return false
		}
	}
	return true
}

func minInt(a, b int) int {''')],
 test='''package model
import ("testing"; "github.com/phoenix-tui/phoenix/render/internal/domain/value")
func TestZZDemo(t *testing.T) {
	b := NewBuffer(2, 2)
	c := b.Clone()
	b.Set(value.NewPosition(0, 1), NewCell('x', value.NewStyle()))
	if c.Get(value.NewPosition(0, 1)).Char() == 'x' { t.Fatal("shared") }
}
''', needs='cloning a buffer with a blank row and writing into that row', breaks='the clone shares the row with the buffer'),
dict(id='C16-diff-style', property='C16', module='render', pkg='internal/domain/service',
 edits=[(RD,'''			if !oldCell.Equals(newCell) {
				ops''','''			if !oldCell.Equals(newCell) && !(oldCell.Char() == ' ' && newCell.Char() == ' ' && oldCell.Width() == newCell.Width()) {
				ops''')],
 test='''package service
import ("testing"; "github.com/phoenix-tui/phoenix/render/internal/domain/model"; "github.com/phoenix-tui/phoenix/render/internal/domain/value")
func TestZZDemo(t *testing.T) {
	a, b := model.NewBuffer(2, 1), model.NewBuffer(2, 1)
	b.Set(value.NewPosition(1, 0), model.NewCell(' ', value.NewStyleWithBg(value.NewColor(255, 0, 0))))
	if n := len(NewDiffService().Diff(a, b)); n != 1 { t.Fatal(n) }
}
''', needs='a space that only changes its background', breaks='the diff leaves out a cell that differs'),
dict(id='C17-size-contains', property='C17', module='core', pkg='internal/domain/value',
 edits=[(CP,'''	return NewPosition(p.Row+deltaRow, p.Col+deltaCol)
''','''	if deltaRow >= 0 && deltaCol >= -p.Row {
		return Position{Row: p.Row + deltaRow, Col: p.Col + deltaCol}
	}
	return NewPosition(p.Row+deltaRow, p.Col+deltaCol)
''')],
 test='''package value
import "testing"
func TestZZDemo(t *testing.T) {
	if p := NewPosition(9, 2).Add(0, -5); p.Col != 0 { t.Fatal(p) }
}
''', needs='moving left beyond the edge from a row further down than the move', breaks='the position lies left of the origin'),
dict(id='C18-term-program', property='C18', module='core', pkg='internal/domain/service',
 edits=[(DE,'''	if ct == "truecolor" || ct == "24bit" {
		return value.ColorDepthTrueColor
	}
''','''	if (ct == "truecolor" || ct == "24bit") && cd.env.Get("TERM_PROGRAM") != "Apple_Terminal" {
		return value.ColorDepthTrueColor
	}
''')],
 test='''package service
import "testing"
import "github.com/phoenix-tui/phoenix/core/internal/domain/value"
type zzenv map[string]string
func (e zzenv) Get(k string) string { return e[k] }
func (e zzenv) Platform() string { return "linux" }
func TestZZDemo(t *testing.T) {
	c := NewCapabilitiesDetector(zzenv{"COLORTERM": "truecolor", "TERM_PROGRAM": "Apple_Terminal", "TERM": "xterm"}).Detect()
	if c.ColorDepth() != value.ColorDepthTrueColor { t.Fatal(c.ColorDepth()) }
}
''', needs='COLORTERM=truecolor with TERM_PROGRAM=Apple_Terminal on a platform other than macOS', breaks='the terminal program comes before COLORTERM'),
dict(id='C18-no-color-space', property='C18', module='core', pkg='internal/domain/service',
 edits=[(DE,'''	if cd.env.Get("NO_COLOR") != "" {
''','''	if strings.TrimSpace(cd.env.Get("NO_COLOR")) != "" {
''')],
 test='''package service
import "testing"
type zzenv map[string]string
func (e zzenv) Get(k string) string { return e[k] }
func (e zzenv) Platform() string { return "linux" }
func TestZZDemo(t *testing.T) {
	c := NewCapabilitiesDetector(zzenv{"NO_COLOR": " ", "TERM": "xterm"}).Detect()
	if c.SupportsColor() { t.Fatal(c.ColorDepth()) }
}
''', needs='NO_COLOR set to blanks only', breaks='a non-empty NO_COLOR is ignored'),
dict(id='C19-clamp-max', property='C19', module='layout', pkg='internal/domain/service',
 edits=[(LS,'''	maxY := parentSize.Height() - boxSize.Height()
	if maxY < 0 {
		maxY = 0
	}
	if y > maxY {
		y = maxY
	}
''','''	maxY := parentSize.Height() - boxSize.Height()
	if y > maxY {
		y = maxY
	}
''')],
 test='''package service
import ("testing"; "github.com/phoenix-tui/phoenix/layout/internal/domain/value")
func TestZZDemo(t *testing.T) {
	p := NewLayoutService(NewMeasureService()).ClampPosition(value.NewPosition(0, 0), value.NewSizeExact(2, 9), value.NewSizeExact(5, 5))
	if p.Y() != 0 { t.Fatal(p.Y()) }
}
''', needs='a box taller than its parent', breaks='the clamped position lies above the parent'),
dict(id='C19-node-children', property='C19', module='layout', pkg='internal/domain/service',
 edits=[(LS,'''		currentY += childSize.Height()
''','''		if h := childSize.Height(); h > 1 || len(child.Children()) == 0 {
			currentY += h
		}
''')],
 test='''package service
import ("testing"; "github.com/phoenix-tui/phoenix/layout/internal/domain/value"; "github.com/phoenix-tui/phoenix/layout/internal/domain/model")
func TestZZDemo(t *testing.T) {
	leaf := func() *model.Node { return model.NewNode(model.NewBox("x")) }
	root := model.NewNode(model.NewBox("r")).AddChild(leaf().AddChild(leaf())).AddChild(leaf())
	n := NewLayoutService(NewMeasureService()).LayoutNode(root, value.NewSizeExact(9, 9))
	if c := n.Children(); c[1].Position().Y() != 1 { t.Fatal(c[1].Position().Y()) }
}
''', needs='a one-line child that has children of its own, followed by a sibling', breaks='the sibling is laid over it'),
dict(id='C20-center-odd', property='C20', module='layout', pkg='internal/domain/service',
 edits=[(FL,'''			gapBetween := remainingSpace / (len(itemSizes) - 1)

			pos := 0
''','''			gapBetween := remainingSpace / (len(itemSizes) - 1)
			pos := 0
			if !container.IsHorizontal() && gapBetween > gap {
				gapBetween -= gap // the gap counts towards the share
			}
''')],
 test='''package service
import ("testing"; "github.com/phoenix-tui/phoenix/layout/internal/domain/value"; "github.com/phoenix-tui/phoenix/layout/internal/domain/model")
func TestZZDemo(t *testing.T) {
	c := model.NewFlexContainer(value.FlexDirectionColumn).WithGap(1).WithJustifyContent(value.JustifyContentSpaceBetween).
		AddItem(model.NewNode(model.NewBox("a"))).AddItem(model.NewNode(model.NewBox("b")))
	r := NewFlexboxLayoutService(NewMeasureService()).Layout(c, 10, 10)
	if y := r.Items()[1].Position().Y(); y != 9 { t.Fatal(y) }
}
''', needs='a column with a gap and space-between', breaks='the items do not get their full share of the free space'),
dict(id='C20-cross-max', property='C20', module='layout', pkg='internal/domain/service',
 edits=[(FL,'''			positions[i] = (containerSize - itemSize) / 2
''','''			if i > 0 && itemSizes[i-1] == size {
				positions[i] = positions[i-1] + (containerSize-itemSize)%2
			} else {
				positions[i] = (containerSize - itemSize) / 2
			}
''')],
 test='''package service
import ("testing"; "github.com/phoenix-tui/phoenix/layout/internal/domain/value"; "github.com/phoenix-tui/phoenix/layout/internal/domain/model")
func TestZZDemo(t *testing.T) {
	c := model.NewFlexContainer(value.FlexDirectionRow).WithAlignItems(value.AlignItemsCenter).
		AddItem(model.NewNode(model.NewBox("a"))).AddItem(model.NewNode(model.NewBox("b"))).AddItem(model.NewNode(model.NewBox("c")))
	r := NewFlexboxLayoutService(NewMeasureService()).Layout(c, 10, 4)
	for _, it := range r.Items() { if y := it.Position().Y(); y != 1 { t.Fatal(y) } }
}
''', needs='several equal items centred in an odd free space', breaks='later items are not in the middle of the cross axis'),
]
