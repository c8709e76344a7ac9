L='components/list/internal/domain/model/list.go'
MS='components/multiselect/internal/domain/model/multiselect.go'
SEL='components/select/internal/domain/model/select.go'
TS='components/table/internal/domain/service/sort.go'
TM='components/table/internal/domain/model/table.go'
MM='components/modal/internal/domain/model/modal.go'
CF='components/confirm/internal/domain/model/confirm.go'
FO='components/form/internal/domain/model/form.go'
SV='components/multiselect/internal/domain/value/selection.go'
SEEDS=[
dict(id='C02-incremental-filter', property='C02', module='components', pkg='list/internal/domain/model',
 edits=[(L,'''	newList.filterQuery = query
	newList.applyFilter()
''','''	newList.filterQuery = query
	if l.filterQuery != "" && len(query) > len(l.filterQuery) && query[:len(l.filterQuery)] == l.filterQuery {
		// Typing further only narrows what is shown already.
		newList.filteredItems = newList.filterService.Filter(l.filteredItems, query, l.filterFunc)
		newList.selectedIndices = make(map[int]bool)
	} else {
		newList.applyFilter()
	}
''')],
 test='''package model
import (
	"testing"
	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
)
func TestZZDemo(t *testing.T) {
	items := []*value.Item{value.NewItem(1, "a"), value.NewItem(2, "bbb"), value.NewItem(3, "cc")}
	l := NewListWithItems(items, value.SelectionModeMulti).WithFilter(func(it *value.Item, q string) bool { return len(it.Label()) == len(q) })
	l = l.SetFilterQuery("x").SetFilterQuery("xy")
	if g := l.FilteredItems(); len(g) != 1 || g[0] != items[2] { t.Fatalf("%d items", len(g)) }
}
''', needs='a custom filter that is not monotone in the query, then extending the query by typing', breaks='items that match the new query stay hidden because only the items shown before are searched'),
dict(id='C02-clone-shares-empty', property='C02', module='components', pkg='list/internal/domain/model',
 edits=[(L,'''	newSelectedIndices := make(map[int]bool, len(l.selectedIndices))
''','''	newSelectedIndices := l.selectedIndices
	if len(l.selectedIndices) > 0 || newSelectedIndices == nil {
		newSelectedIndices = make(map[int]bool, len(l.selectedIndices))
	}
''')],
 test='''package model
import (
	"testing"
	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
)
func TestZZDemo(t *testing.T) {
	items := []*value.Item{value.NewItem(1, "a"), value.NewItem(2, "b")}
	l := NewListWithItems(items, value.SelectionModeMulti)
	m := l.MoveDown()
	_ = m.ToggleSelection()
	if len(l.SelectedIndices()) != 0 || len(m.SelectedIndices()) != 0 { t.Fatal("an earlier list changed") }
}
''', needs='toggling in a list derived from one with nothing selected, then looking at the earlier list', breaks='the earlier list shares the (empty) selection map with the derived one'),
dict(id='C02-reset-focus', property='C02', module='components', pkg='list/internal/domain/model',
 edits=[(L,'''	if l.focusedIndex >= len(l.filteredItems) {
		l.focusedIndex = 0
	}
''','''	if last := len(l.filteredItems); l.focusedIndex > last {
		l.focusedIndex = 0
	}
''')],
 test='''package model
import (
	"testing"
	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
)
func TestZZDemo(t *testing.T) {
	items := []*value.Item{value.NewItem(1, "a"), value.NewItem(2, "ab"), value.NewItem(3, "c")}
	l := NewListWithItems(items, value.SelectionModeMulti).MoveToEnd().SetFilterQuery("a")
	if l.FocusedItem() == nil { t.Fatalf("focus %d of %d", l.FocusedIndex(), len(l.FilteredItems())) }
}
''', needs='a filter that leaves exactly as many items as the focused index', breaks='the focus is one past the last filtered item'),
dict(id='C03-toggle-by-label', property='C03', module='components', pkg='multiselect/internal/domain/model',
 edits=[(MS,'''			if opt == focusedOpt {
''','''			if opt.Label() == focusedOpt.Label() && opt.Description() == focusedOpt.Description() {
''')],
 test='''package model
import (
	"testing"
	"github.com/phoenix-tui/phoenix/components/multiselect/internal/domain/value"
)
func TestZZDemo(t *testing.T) {
	m := New([]*value.Option[int]{value.NewOption("a", 1), value.NewOption("a", 2)}, 0, 0)
	m = m.MoveDown().Toggle()
	if g := m.SelectedIndices(); len(g) != 1 || g[0] != 1 { t.Fatal(g) }
}
''', needs='two options with the same label, the cursor on the second', breaks='toggling changes the first option with that label instead of the one under the cursor'),
dict(id='C03-range-first', property='C03', module='components', pkg='multiselect/internal/domain/value',
 edits=[(SV,'''	} else if s.max == 0 || len(newIndices) < s.max {
''','''	} else if s.max == 0 || len(newIndices) < s.max || (s.min == s.max && len(newIndices) <= s.min) {
''')],
 test='''package value
import "testing"
func TestZZDemo(t *testing.T) {
	s := NewSelection(2, 2).Toggle(0).Toggle(1).Toggle(2)
	if s.Count() > 2 { t.Fatal(s.Count()) }
}
''', needs='minimum equal to maximum, and toggling one more', breaks='the selection exceeds its maximum'),
dict(id='C03-fastpath', property='C03', module='components', pkg='multiselect/internal/domain/model',
 edits=[(MS,'''		focusedOpt := m.filteredOpts[m.cursor]
''','''		if m.filterQuery == "" {
			return m.withSelection(m.selection.Toggle(m.cursor)) // nothing is filtered out
		}
		focusedOpt := m.filteredOpts[m.cursor]
''')],
 test='''package model
import (
	"testing"
	"github.com/phoenix-tui/phoenix/components/multiselect/internal/domain/value"
)
func TestZZDemo(t *testing.T) {
	m := New([]*value.Option[int]{value.NewOption("a", 1), value.NewOption("b", 2)}, 0, 0).
		WithFilterFunc(func(o *value.Option[int], q string) bool { return o.Value() == 2 }).SetFilterQuery("")
	m = m.Toggle()
	if g := m.SelectedIndices(); len(g) != 1 || g[0] != 1 { t.Fatal(g) }
}
''', needs='a custom filter that hides options for the empty query', breaks='toggling changes another option than the one under the cursor'),
dict(id='C04-fastpath', property='C04', module='components', pkg='select/internal/domain/model',
 edits=[(SEL,'''		selectedOpt := s.filteredOpts[s.cursor]
''','''		if len(s.filteredOpts) == len(s.options) || s.filterQuery == "" {
			return s.withSelectedIndex(s.cursor)
		}
		selectedOpt := s.filteredOpts[s.cursor]
''')],
 test='''package model
import (
	"testing"
	"github.com/phoenix-tui/phoenix/components/select/internal/domain/value"
)
func TestZZDemo(t *testing.T) {
	m := New([]*value.Option[int]{value.NewOption("a", 1), value.NewOption("b", 2)}).
		WithFilterFunc(func(o *value.Option[int], q string) bool { return o.Value() == 2 }).SetFilterQuery("")
	v, ok := m.Select().SelectedValue()
	if !ok || v != 2 { t.Fatal(v, ok) }
}
''', needs='a custom filter that hides options for the empty query', breaks='selecting yields another option than the one under the cursor'),
dict(id='C04-adjust', property='C04', module='components', pkg='select/internal/domain/model',
 edits=[(SEL,'''		newOffset = s.cursor - s.height + 1
''','''		newOffset = s.cursor - s.height + 1
		if rest := len(s.filteredOpts) - newOffset; rest <= s.height && s.height > 2 {
			newOffset-- // keep a line of context above the last page
		}
''')],
 test='''package model
import (
	"testing"
	"strings"
	"github.com/phoenix-tui/phoenix/components/select/internal/domain/value"
)
func TestZZDemo(t *testing.T) {
	var o []*value.Option[int]
	for i := 0; i < 8; i++ { o = append(o, value.NewOption(string(rune('a'+i)), i)) }
	m := New(o).WithHeight(3).MoveToEnd()
	if r := strings.Join(m.RenderVisibleOptions(), "|"); !strings.Contains(r, "> h") { t.Fatal(r) }
}
''', needs='the cursor on the last option of a list longer than the window', breaks='the focused option is not among the rows shown'),
dict(id='C05-sort-tie', property='C05', module='components', pkg='table/internal/domain/service',
 edits=[(TS,'''		return cmp > 0
''','''		return cmp > 0 || (cmp == 0 && valI == nil && i > j)
''')],
 test='''package service
import (
	"testing"
	"github.com/phoenix-tui/phoenix/components/table/internal/domain/model"
	"github.com/phoenix-tui/phoenix/components/table/internal/domain/value"
)
func TestZZDemo(t *testing.T) {
	rows := []model.Row{{"n": "a"}, {"n": "b"}, {"k": 2, "n": "c"}, {"n": "d"}}
	s := NewSortService().Sort(rows, "k", value.SortDirectionDesc)
	got := ""
	for _, r := range s { got += r["n"].(string) }
	if got != "cabd" { t.Fatal(got) }
}
''', needs='descending sort with several rows that lack the column', breaks='equal rows do not keep their original order'),
dict(id='C05-compare-mixed', property='C05', module='components', pkg='table/internal/domain/service',
 edits=[(TS,'''	if a > b {
		return 1
	}
	return 0
}

// compareInt64s''','''	return min(a-b, 1)
}

// compareInt64s''')],
 test='''package service
import "testing"
func TestZZDemo(t *testing.T) {
	if c := NewSortService().Compare(9223372036854775807, -1); c != 1 { t.Fatal(c) }
}
''', needs='very large values of opposite sign', breaks='subtraction overflows: the larger value sorts first'),
dict(id='C05-moveup-offset', property='C05', module='components', pkg='table/internal/domain/model',
 edits=[(TM,'''	if newIndex < t.scrollOffset {
		newOffset = newIndex
	}
''','''	if newIndex < t.scrollOffset {
		newOffset = newIndex
	} else if !t.showHeader && newOffset > 1 && newIndex == newOffset+t.height-2 {
		newOffset -= 2 // keep some context below
	}
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	var rows []Row
	for i := 0; i < 9; i++ { rows = append(rows, Row{"a": i}) }
	tb := NewTableWithRows([]*Column{NewColumn("a", "A", 3)}, rows).WithShowHeader(false).WithHeight(3).MoveToEnd().MoveUp()
	v := tb.VisibleRows()
	for _, r := range v { if r["a"] == tb.SelectedRow()["a"] { return } }
	t.Fatalf("selected %v not shown: %v", tb.SelectedRow(), v)
}
''', needs='no header, the last row selected, moving up', breaks='the selected row is not among the visible rows'),
dict(id='C06-prev-ring', property='C06', module='components', pkg='confirm/internal/domain/model',
 edits=[(CF,'''			focused := c.withFocusedButton(i)
			return focused.Confirm()
''','''			result := c.labelToResult(btn.Label())
			return &Confirm{
				title:       c.title,
				description: c.description,
				buttons:     c.buttons,
				focused:     i,
				result:      result,
				done:        true,
			}
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	c := New("?").WithButtons("Go", "Stop").ConfirmKey('g')
	if !c.Done() || c.Result() != ResultYes { t.Fatal(c.Result()) }
	c = New("?").WithButtons("Go", "Stop").WithDefaultYes().ConfirmKey('s')
	if !c.Done() || c.Result() != ResultNo { t.Fatal(c.Result()) }
}
''', needs='custom labels and a shortcut key for a button that is not the focused one', breaks='the answer reported is the one of the focused button, not of the button whose key was pressed'),
dict(id='C06-with-buttons-focus', property='C06', module='components', pkg='modal/internal/domain/model',
 edits=[(MM,'''		buttons:       buttons,
		size:          m.size,
		position:      m.position,
		focusedButton: 0, // Reset focus when buttons change
''','''		buttons:       buttons,
		size:          m.size,
		position:      m.position,
		focusedButton: max(0, min(m.focusedButton, len(m.buttons)-1)),
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	b := []*Button{NewButton("a", "a", "a"), NewButton("b", "b", "b")}
	m := NewModal("x").WithButtons(b).FocusNextButton().WithButtons(b[:1])
	if m.FocusedButton() == nil { t.Fatal(m.FocusedButtonIndex()) }
}
''', needs='replacing the buttons by fewer after moving the focus', breaks='the focus names no button'),
dict(id='C07-validate-skip', property='C07', module='components', pkg='form/internal/domain/model',
 edits=[(FO,'''			continue
		}
''','''			continue
		}
		if len(field.Errors()) == 0 && !field.Dirty() && field.Touched() {
			continue // validated when the focus left it and unchanged since
		}
''')],
 test='''package model
import (
	"errors"
	"testing"
	"github.com/phoenix-tui/phoenix/components/form/internal/domain/value"
)
type zzm struct{}
func (zzm) View() string { return "" }
func TestZZDemo(t *testing.T) {
	f := value.NewField("a", "A", zzm{}).WithValidators(func(interface{}) error { return errors.New("bad") })
	g := New("t").WithFields([]*value.Field{f, value.NewField("b", "B", zzm{})}).MoveFocusNext()
	g = g.ValidateAll(map[string]interface{}{"a": "", "b": ""})
	if g.IsValid() { t.Fatal("accepted though the validator rejects") }
}
''', needs='tabbing through a field without typing, then submitting', breaks='the field is not validated'),
dict(id='C07-reset-validators', property='C07', module='components', pkg='form/internal/domain/model',
 edits=[(FO,'''			errors = append(errors, err)
		}
	}

	// Update field with errors''','''			errors = append(field.Errors()[:len(errors)], err)
		}
	}

	// Update field with errors''')],
 test='''package model
import (
	"errors"
	"testing"
	"github.com/phoenix-tui/phoenix/components/form/internal/domain/value"
)
type zzm struct{}
func (zzm) View() string { return "" }
func TestZZDemo(t *testing.T) {
	f := value.NewField("a", "A", zzm{}).WithValidators(func(v interface{}) error { return errors.New(v.(string)) })
	g := New("t").WithFields([]*value.Field{f}).ValidateField(0, "one")
	_ = g.ValidateField(0, "two")
	if g.Fields()[0].Errors()[0].Error() != "one" { t.Fatal("earlier form changed") }
}
''', needs='validating the same field twice and looking at the earlier form', breaks='the error slice of the earlier form is overwritten'),
]
