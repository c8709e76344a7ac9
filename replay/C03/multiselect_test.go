//gov:pkg components/multiselect/internal/domain/model
package model_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/multiselect/internal/domain/model"
	"github.com/phoenix-tui/phoenix/components/multiselect/internal/domain/value"
)

type msState struct {
	labels   []string
	opts     []*value.Option[int]
	filt     []int // original indices shown
	cursor   int
	sel      map[int]bool
	min, max int
	h        int
}

func (s *msState) indices() []int {
	r := []int{}
	for i := range s.sel {
		r = append(r, i)
	}
	sort.Ints(r)
	return r
}
func (s *msState) toggle(i int) {
	if s.sel[i] {
		delete(s.sel, i)
	} else if s.max == 0 || len(s.sel) < s.max {
		s.sel[i] = true
	}
}
func (s *msState) limits(a, b int) {
	if a < 0 {
		a = 0
	}
	if b < 0 {
		b = 0
	}
	if b > 0 && a > b {
		a = b
	}
	s.min, s.max = a, b
}

func msDump(m *model.MultiSelect[int]) string {
	ix := m.SelectedIndices()
	sort.Ints(ix)
	return fmt.Sprint(ix, m.SelectionCount(), m.CanConfirm(), m.FilterQuery(), m.FilteredCount(), m.TotalCount(), m.RenderVisibleOptions())
}

func TestGovMultiSelect(t *testing.T) {
	rng := govRand()
	n := govN(3000, 40000)
	words := []string{"a", "b", "ab", "abc", "ba", "B", "Ab", "c", "cab", "é", "日本"}
	for c := 0; c < n && govFails == 0; c++ {
		var hist []string
		ctx := func() string { return "history " + strings.Join(hist, "; ") }
		fail := func(f string, a ...any) { govFail(t, "%s: %s", ctx(), fmt.Sprintf(f, a...)) }
		st := &msState{h: 10, sel: map[int]bool{}}
		k := rng.Intn(9)
		for i := 0; i < k; i++ {
			w := words[rng.Intn(len(words))]
			st.labels = append(st.labels, w)
			st.opts = append(st.opts, value.NewOption(w, i))
			st.filt = append(st.filt, i)
		}
		a, b := rng.Intn(6)-1, rng.Intn(6)-1
		st.limits(a, b)
		hist = append(hist, fmt.Sprintf("New(%q, %d, %d)", st.labels, a, b))
		m := model.New(append([]*value.Option[int](nil), st.opts...), a, b)
		type snap struct {
			m *model.MultiSelect[int]
			d string
		}
		var snaps []snap
		for s := 1 + rng.Intn(14); s > 0 && govFails == 0; s-- {
			govStep(t, func() {
				snaps = append(snaps, snap{m, msDump(m)})
				cnt := len(st.filt)
				switch rng.Intn(13) {
				case 0:
					hist = append(hist, "MoveUp")
					m = m.MoveUp()
					if st.cursor > 0 {
						st.cursor--
					}
				case 1, 2:
					hist = append(hist, "MoveDown")
					m = m.MoveDown()
					if st.cursor < cnt-1 {
						st.cursor++
					}
				case 3:
					hist = append(hist, "MoveToStart")
					m = m.MoveToStart()
					st.cursor = 0
				case 4:
					hist = append(hist, "MoveToEnd")
					m = m.MoveToEnd()
					st.cursor = cnt - 1
					if cnt == 0 {
						st.cursor = 0
					}
				case 5, 6:
					hist = append(hist, "Toggle")
					m = m.Toggle()
					if cnt > 0 {
						st.toggle(st.filt[st.cursor])
					}
				case 7:
					hist = append(hist, "SelectAll")
					m = m.SelectAll()
					for _, i := range st.filt {
						if !st.sel[i] {
							st.toggle(i)
						}
					}
				case 8:
					hist = append(hist, "SelectNone")
					m = m.SelectNone()
					st.sel = map[int]bool{}
				case 9:
					q := words[rng.Intn(len(words))]
					if rng.Intn(3) == 0 {
						q = ""
					}
					hist = append(hist, fmt.Sprintf("SetFilterQuery(%q)", q))
					m = m.SetFilterQuery(q)
					st.filt = nil
					for i, l := range st.labels {
						if strings.Contains(strings.ToLower(l), strings.ToLower(q)) {
							st.filt = append(st.filt, i)
						}
					}
					if st.cursor >= len(st.filt) {
						st.cursor = len(st.filt) - 1
					}
					if st.cursor < 0 {
						st.cursor = 0
					}
				case 10:
					h := rng.Intn(7) - 1
					hist = append(hist, fmt.Sprintf("WithHeight(%d)", h))
					m = m.WithHeight(h)
					st.h = h
					if h < 1 {
						st.h = 1
					}
				case 11:
					var ix []int
					for j := rng.Intn(4); j > 0 && k > 0; j-- {
						ix = append(ix, rng.Intn(k))
					}
					hist = append(hist, fmt.Sprintf("WithSelected(%v)", ix))
					m = m.WithSelected(ix...)
					for _, i := range ix {
						if st.max == 0 || len(st.sel) < st.max {
							st.sel[i] = true
						}
					}
				case 12:
					a, b := rng.Intn(6)-1, rng.Intn(6)-1
					hist = append(hist, fmt.Sprintf("WithSelectionConstraints(%d, %d)", a, b))
					m = m.WithSelectionConstraints(a, b)
					st.limits(a, b)
					// which ones survive a lower maximum is not specified, how many is
					want := len(st.sel)
					if st.max > 0 && want > st.max {
						want = st.max
					}
					got := m.SelectedIndices()
					if len(got) != want {
						fail("%d options selected after the new limits, want %d", len(got), want)
					}
					ns := map[int]bool{}
					for _, i := range got {
						if !st.sel[i] {
							fail("option %d became selected by a change of limits", i)
						}
						ns[i] = true
					}
					st.sel = ns
				}
				// observations
				ix := m.SelectedIndices()
				sort.Ints(ix)
				if fmt.Sprint(ix) != fmt.Sprint(st.indices()) {
					fail("selected %v, want %v", ix, st.indices())
				}
				if st.max > 0 && m.SelectionCount() > st.max {
					fail("%d selected, maximum %d", m.SelectionCount(), st.max)
				}
				if m.SelectionCount() != len(st.sel) {
					fail("SelectionCount %d, want %d", m.SelectionCount(), len(st.sel))
				}
				if m.CanConfirm() != (len(st.sel) >= st.min) {
					fail("CanConfirm %v with %d selected, minimum %d", m.CanConfirm(), len(st.sel), st.min)
				}
				vals := append([]int(nil), m.SelectedValues()...)
				sort.Ints(vals)
				if fmt.Sprint(vals) != fmt.Sprint(ix) {
					fail("selected values %v for selected options %v", vals, ix)
				}
				if m.FilteredCount() != len(st.filt) {
					fail("%d options shown, want %d", m.FilteredCount(), len(st.filt))
				}
				lines := m.RenderVisibleOptions()
				at := -1
				for i, l := range lines {
					if strings.HasPrefix(l, "> ") {
						if at >= 0 {
							fail("two focused lines in %q", lines)
						}
						at = i
					}
				}
				if len(lines) > st.h || len(lines) > len(st.filt) {
					fail("%d lines rendered, height %d, options %d", len(lines), st.h, len(st.filt))
				}
				if len(st.filt) > 0 {
					if at < 0 {
						fail("cursor line not visible in %q", lines)
						return
					}
					for i := range lines {
						p := st.cursor - at + i
						if p < 0 || p >= len(st.filt) {
							fail("window %q does not match the options shown", lines)
							return
						}
						o := st.filt[p]
						want := "  [ ] " + st.labels[o]
						if st.sel[o] {
							want = "  [x] " + st.labels[o]
						}
						if i == at {
							want = "> " + want[2:]
						}
						if lines[i] != want {
							fail("line %q, want %q", lines[i], want)
						}
					}
				}
				for _, s := range snaps {
					if d := msDump(s.m); d != s.d {
						fail("an earlier value changed from %s to %s", s.d, d)
					}
				}
			}, ctx)
		}
	}
	govCases(n, "multi-select histories")
}
