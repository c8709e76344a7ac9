//gov:pkg components/table
package table_test

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/table"
	"github.com/phoenix-tui/phoenix/components/table/internal/domain/model"
	"github.com/phoenix-tui/phoenix/components/table/internal/domain/service"
	"github.com/phoenix-tui/phoenix/components/table/internal/domain/value"
	"github.com/phoenix-tui/phoenix/tea"
)

// the wrapper: keys, sorting by column, the marked row of the view
func TestGovTable(t *testing.T) {
	rng := govRand()
	n := govN(3000, 40000)
	for c := 0; c < n && govFails == 0; c++ {
		var hist []string
		ctx := func() string { return "history " + strings.Join(hist, "; ") }
		fail := func(f string, a ...any) { govFail(t, "%s: %s", ctx(), fmt.Sprintf(f, a...)) }
		ids := 0
		mk := func() (r []table.Row, in []int) {
			for k := rng.Intn(14); k > 0; k-- {
				row := table.Row{"id": ids, "n": rng.Intn(5) - 2, "s": []string{"", "a", "b", "B", "é"}[rng.Intn(5)], "f": float64(rng.Intn(4)) / 2, "b": rng.Intn(2) == 0}
				if rng.Intn(6) == 0 {
					delete(row, "n")
				}
				r = append(r, row)
				in = append(in, ids)
				ids++
			}
			return
		}
		cols := []table.Column{{Key: "id", Title: "I", Width: 8}, {Key: "n", Title: "N", Width: 6, Sortable: true}, {Key: "s", Title: "S", Width: 6, Sortable: true}, {Key: "f", Title: "F", Width: 5, Sortable: true}, {Key: "b", Title: "B", Width: 5, Sortable: true}}
		rows, _ := mk()
		tb := table.NewWithRows(cols, rows)
		cur := append([]table.Row(nil), rows...) // the rows as shown
		orig := append([]table.Row(nil), rows...)
		selIdx, h, header, sortKey, asc := 0, 10, true, "", true
		body := func() int {
			b := h
			if header {
				b--
			}
			if b < 0 {
				b = 0
			}
			return b
		}
		hist = append(hist, fmt.Sprintf("NewWithRows(%v)", rows))
		dump := func(tb *table.Table) string {
			return fmt.Sprint(tb.SelectedIndex(), tb.SelectedRow(), tb.Rows(), tb.View())
		}
		less := func(a, b any) bool {
			if a == nil || b == nil {
				return a == nil && b != nil
			}
			switch x := a.(type) {
			case int:
				return x < b.(int)
			case string:
				return x < b.(string)
			case float64:
				return x < b.(float64)
			case bool:
				return !x && b.(bool)
			}
			panic("type")
		}
		type snap struct {
			t *table.Table
			d string
		}
		var snaps []snap
		for st := 1 + rng.Intn(14); st > 0 && govFails == 0; st-- {
			govStep(t, func() {
				snaps = append(snaps, snap{tb, dump(tb)})
				key := func(m tea.KeyMsg) {
					hist = append(hist, "key "+m.String())
					tb, _ = tb.Update(m)
				}
				clearSort := func() {
					cur = append([]table.Row(nil), orig...)
					sortKey = ""
				}
				switch rng.Intn(14) {
				case 0:
					key(tea.KeyMsg{Type: tea.KeyUp})
					if selIdx > 0 {
						selIdx--
					}
				case 1, 2:
					key(tea.KeyMsg{Type: tea.KeyDown})
					if selIdx < len(cur)-1 {
						selIdx++
					}
				case 3:
					key(tea.KeyMsg{Type: tea.KeyHome})
					selIdx = 0
				case 4, 5:
					key(tea.KeyMsg{Type: tea.KeyEnd})
					selIdx = len(cur) - 1
					if selIdx < 0 {
						selIdx = 0
					}
				case 6:
					key(tea.KeyMsg{Type: tea.KeyPgUp})
					selIdx -= body()
					if selIdx < 0 {
						selIdx = 0
					}
				case 7:
					key(tea.KeyMsg{Type: tea.KeyPgDown})
					if len(cur) > 0 {
						selIdx += body()
						if selIdx > len(cur)-1 {
							selIdx = len(cur) - 1
						}
					}
				case 8:
					key(tea.KeyMsg{Type: tea.KeyRune, Rune: 'c'})
					clearSort()
				case 9:
					h = rng.Intn(9) - 2
					hist = append(hist, fmt.Sprintf("Height(%d)", h))
					tb = tb.Height(h)
				case 10:
					header = !header
					hist = append(hist, fmt.Sprintf("ShowHeader(%v)", header))
					tb = tb.ShowHeader(header)
				case 11:
					rs, _ := mk()
					hist = append(hist, fmt.Sprintf("SetRows(%v)", rs))
					tb = tb.SetRows(rs)
					orig = append([]table.Row(nil), rs...)
					clearSort()
					selIdx = 0
				case 12, 13:
					k := []string{"id", "n", "s", "f", "b", "zz"}[rng.Intn(6)]
					hist = append(hist, fmt.Sprintf("SortByColumn(%q)", k))
					tb = tb.SortByColumn(k)
					if k == "id" || k == "zz" {
						break
					}
					if sortKey == k {
						asc = !asc
					} else {
						asc = true
					}
					sortKey = k
					cur = append([]table.Row(nil), orig...)
					up := asc
					sort.SliceStable(cur, func(i, j int) bool {
						if up {
							return less(cur[i][k], cur[j][k])
						}
						return less(cur[j][k], cur[i][k])
					})
					selIdx = 0
				}
				if tb.SelectedIndex() != selIdx {
					fail("selected index %d, want %d", tb.SelectedIndex(), selIdx)
					return
				}
				if len(cur) == 0 {
					if tb.SelectedRow() != nil {
						fail("a selected row without rows")
					}
				} else if fmt.Sprint(tb.SelectedRow()) != fmt.Sprint(cur[selIdx]) {
					fail("selected row %v, want %v", tb.SelectedRow(), cur[selIdx])
				}
				if fmt.Sprint(tb.Rows()) != fmt.Sprint(orig) && !(len(orig) == 0 && len(tb.Rows()) == 0) {
					fail("rows %v, want %v", tb.Rows(), orig)
				}
				lines := strings.Split(strings.TrimSuffix(tb.View(), "\n"), "\n")
				if header {
					lines = lines[2:]
				}
				if len(lines) == 1 && lines[0] == "" {
					lines = nil
				}
				want := body()
				if len(lines) > want {
					fail("%d rows shown, body has room for %d", len(lines), want)
				}
				at := -1
				for i, l := range lines {
					if strings.HasPrefix(l, ">") {
						at = i
					}
				}
				if len(cur) > 0 && want > 0 && at < 0 {
					fail("the selected row is not shown in %q", lines)
					return
				}
				for i, l := range lines {
					p := selIdx - at + i
					if at < 0 || p < 0 || p >= len(cur) {
						fail("window %q", lines)
						return
					}
					id := strings.TrimSpace(strings.Split(l, "│")[0])
					w := fmt.Sprint(cur[p]["id"])
					if i == at {
						id = strings.TrimPrefix(id, ">")
						w = w[1:]
					}
					if id != w {
						fail("row %d of the window shows %q, want row %v", i, l, cur[p])
					}
				}
				for _, x := range snaps {
					if d := dump(x.t); d != x.d {
						fail("an earlier table changed from %s to %s", x.d, d)
					}
				}
			}, ctx)
		}
	}
	govCases(n, "table histories")
}

// sorting on its own, longer inputs than the insertion-sort blocks of the library
func TestGovSort(t *testing.T) {
	rng := govRand()
	n := govN(400, 4000)
	sv := service.NewSortService()
	for c := 0; c < n && govFails == 0; c++ {
		k := rng.Intn(120)
		kind := rng.Intn(5)
		rows := make([]model.Row, k)
		for i := range rows {
			var v any
			switch kind {
			case 0:
				v = rng.Intn(10)
			case 1:
				v = int64(rng.Intn(10) - 5)
			case 2:
				v = float64(rng.Intn(10)) / 4
			case 3:
				v = rng.Intn(2) == 0
			case 4:
				v = fmt.Sprint(rng.Intn(30))
			}
			if rng.Intn(8) == 0 {
				v = nil
			}
			rows[i] = model.Row{"k": v, "i": i}
		}
		key := func(r model.Row) float64 {
			switch v := r["k"].(type) {
			case nil:
				return -1e9
			case int:
				return float64(v)
			case int64:
				return float64(v)
			case float64:
				return v
			case bool:
				if v {
					return 1
				}
				return 0
			}
			return 0
		}
		before := fmt.Sprint(rows)
		d := value.SortDirection(rng.Intn(3))
		govStep(t, func() {
			out := sv.Sort(rows, "k", d)
			if fmt.Sprint(rows) != before {
				govFail(t, "Sort(%v) changed its argument", before)
			}
			seen := map[int]bool{}
			for i, r := range out {
				id := r["i"].(int)
				seen[id] = true
				if d == value.SortDirectionNone {
					if id != i {
						govFail(t, "Sort(%s, none) moved a row", before)
					}
					continue
				}
				if i == 0 {
					continue
				}
				p := out[i-1]
				c := 0
				if kind == 4 {
					a, _ := p["k"].(string)
					b, _ := r["k"].(string)
					c = strings.Compare(a, b)
					if p["k"] == nil && r["k"] == nil {
						c = 0
					} else if p["k"] == nil {
						c = -1
					} else if r["k"] == nil {
						c = 1
					}
				} else if key(p) < key(r) {
					c = -1
				} else if key(p) > key(r) {
					c = 1
				}
				if d == value.SortDirectionDesc {
					c = -c
				}
				if c > 0 || c == 0 && p["i"].(int) > id {
					govFail(t, "Sort(%s, %v): %v before %v", before, d, p, r)
				}
			}
			if len(seen) != k || len(out) != k {
				govFail(t, "Sort(%s): not a permutation: %v", before, out)
			}
		}, func() string { return "Sort(" + before + ")" })
	}
	govCases(n, "sorts")
}

// comparing two values, extreme ones included
func TestGovCompare(t *testing.T) {
	sv := service.NewSortService()
	ints := []int{math.MinInt, math.MinInt + 1, math.MinInt / 2, math.MinInt32, -3, -1, 0, 1, 2, math.MaxInt32, math.MaxInt/2 + 2, math.MaxInt - 1, math.MaxInt}
	floats := []float64{math.Inf(-1), -math.MaxFloat64, -1e18, -1.5, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, 0.25, 1, 1e18, math.MaxFloat64, math.Inf(1)}
	strs := []string{"", "\x00", "0", "10", "9", "A", "B", "a", "a\x00", "ab", "b", "é", "世", "\xff"}
	n := 0
	try := func(a, b any, i, j int) {
		want := 0
		if i < j {
			want = -1
		} else if i > j {
			want = 1
		}
		n++
		govStep(t, func() {
			if got := sv.Compare(a, b); got != want {
				govFail(t, "Compare(%#v, %#v) = %d, want %d", a, b, got, want)
			}
		}, func() string { return fmt.Sprintf("Compare(%#v, %#v)", a, b) })
	}
	for i, a := range ints {
		for j, b := range ints {
			try(a, b, i, j)
			try(int64(a), int64(b), i, j)
		}
	}
	for i, a := range floats {
		for j, b := range floats {
			try(a, b, i, j)
		}
	}
	for i, a := range strs {
		for j, b := range strs {
			try(a, b, i, j)
		}
	}
	govCases(n, "pairs of values compared")
}
