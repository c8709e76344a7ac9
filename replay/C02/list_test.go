//gov:pkg components/list/internal/domain/model
package model_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/list/internal/domain/model"
	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
)

type liState struct {
	items  []string
	filt   []string
	query  string
	custom int // 0 default filter, 1 prefix filter, 2 none pass
	focus  int
	sel    map[int]bool
	h      int
	single bool
}

func (s *liState) refilter() {
	s.filt = nil
	s.sel = map[int]bool{}
	for _, it := range s.items {
		ok := true
		if s.query != "" {
			switch s.custom {
			case 0:
				ok = strings.Contains(strings.ToLower(it), strings.ToLower(s.query))
			case 1:
				ok = strings.HasPrefix(it, s.query)
			case 2:
				ok = false
			}
		}
		if ok {
			s.filt = append(s.filt, it)
		}
	}
	if s.focus >= len(s.filt) {
		s.focus = 0
	}
}

func liLabels(its []*value.Item) []string {
	var r []string
	for _, i := range its {
		r = append(r, i.Label())
	}
	return r
}

func liDump(l *model.List) string {
	s := l.SelectedIndices()
	sort.Ints(s)
	return fmt.Sprint(liLabels(l.Items()), liLabels(l.FilteredItems()), l.FocusedIndex(), l.ScrollOffset(), l.Height(), s, l.RenderVisibleItems())
}

func TestGovList(t *testing.T) {
	rng := govRand()
	n := govN(3000, 40000)
	words := []string{"a", "b", "ab", "abc", "ba", "B", "Ab", "c", "cab"}
	mk := func() []*value.Item {
		r := make([]*value.Item, rng.Intn(9))
		for i := range r {
			w := words[rng.Intn(len(words))]
			r[i] = value.NewItem(w, w)
		}
		return r
	}
	filters := []func(*value.Item, string) bool{nil, func(i *value.Item, q string) bool { return strings.HasPrefix(i.Label(), q) }, func(*value.Item, string) bool { return false }}
	for c := 0; c < n && govFails == 0; c++ {
		var hist []string
		fail := func(f string, a ...any) {
			govFail(t, "history %s: %s", strings.Join(hist, "; "), fmt.Sprintf(f, a...))
		}
		st := &liState{h: 10, single: rng.Intn(2) == 0, sel: map[int]bool{}}
		mode := value.SelectionModeMulti
		if st.single {
			mode = value.SelectionModeSingle
		}
		its := mk()
		l := model.NewListWithItems(its, mode)
		st.items = liLabels(its)
		st.refilter()
		hist = append(hist, fmt.Sprintf("NewListWithItems(%q, single=%v)", st.items, st.single))
		type snap struct {
			l *model.List
			d string
		}
		var snaps []snap
		for s := 1 + rng.Intn(14); s > 0 && govFails == 0; s-- {
			govStep(t, func() {
				snaps = append(snaps, snap{l, liDump(l)})
				cnt := len(st.filt)
				switch op := rng.Intn(15); op {
				case 0:
					its := mk()
					hist = append(hist, fmt.Sprintf("WithItems(%q)", liLabels(its)))
					l = l.WithItems(its)
					st.items = liLabels(its)
					st.refilter()
					for i := range its {
						its[i] = value.NewItem("zz", "zz") // the caller's slice is its own
					}
				case 1:
					st.h = rng.Intn(8)
					if rng.Intn(6) == 0 {
						st.h = -rng.Intn(4)
					}
					hist = append(hist, fmt.Sprintf("WithHeight(%d)", st.h))
					l = l.WithHeight(st.h)
				case 2:
					st.query = words[rng.Intn(len(words))]
					hist = append(hist, fmt.Sprintf("SetFilterQuery(%q)", st.query))
					l = l.SetFilterQuery(st.query)
					st.refilter()
				case 3:
					st.query = ""
					hist = append(hist, "ClearFilter()")
					l = l.ClearFilter()
					st.refilter()
				case 4:
					st.custom = rng.Intn(3)
					hist = append(hist, fmt.Sprintf("WithFilter(%d)", st.custom))
					l = l.WithFilter(filters[st.custom])
					st.refilter()
				case 5:
					hist = append(hist, "MoveUp()")
					l = l.MoveUp()
					if cnt > 0 {
						st.focus = (st.focus + cnt - 1) % cnt
					}
				case 6, 7:
					hist = append(hist, "MoveDown()")
					l = l.MoveDown()
					if cnt > 0 {
						st.focus = (st.focus + 1) % cnt
					}
				case 8:
					hist = append(hist, "MovePageUp()")
					l = l.MovePageUp()
					if st.h > 0 {
						st.focus -= st.h
					}
					if st.focus < 0 {
						st.focus = 0
					}
				case 9:
					hist = append(hist, "MovePageDown()")
					l = l.MovePageDown()
					if cnt > 0 && st.h > 0 {
						st.focus += st.h
						if st.focus >= cnt {
							st.focus = cnt - 1
						}
					}
				case 10:
					hist = append(hist, "MoveToEnd()")
					l = l.MoveToEnd()
					if cnt > 0 {
						st.focus = cnt - 1
					}
				case 11:
					hist = append(hist, "MoveToStart()")
					l = l.MoveToStart()
					st.focus = 0
				case 12:
					hist = append(hist, "ToggleSelection()")
					l = l.ToggleSelection()
					if cnt > 0 {
						if st.single {
							st.sel = map[int]bool{st.focus: true}
						} else {
							m := map[int]bool{}
							for k := range st.sel {
								m[k] = true
							}
							if m[st.focus] {
								delete(m, st.focus)
							} else {
								m[st.focus] = true
							}
							st.sel = m
						}
					}
				case 13:
					hist = append(hist, "SelectAll()")
					l = l.SelectAll()
					if !st.single && cnt > 0 {
						st.sel = map[int]bool{}
						for i := 0; i < cnt; i++ {
							st.sel[i] = true
						}
					}
				case 14:
					hist = append(hist, "ClearSelection()")
					l = l.ClearSelection()
					st.sel = map[int]bool{}
				}
				if g := liLabels(l.FilteredItems()); fmt.Sprint(g) != fmt.Sprint(st.filt) {
					fail("filtered items %q, want %q", g, st.filt)
				}
				if l.FocusedIndex() != st.focus {
					fail("focused index %d, want %d", l.FocusedIndex(), st.focus)
				}
				if (l.FocusedItem() == nil) != (len(st.filt) == 0) || l.FocusedItem() != nil && l.FocusedItem().Label() != st.filt[st.focus] {
					fail("focused item %v", l.FocusedItem())
				}
				g := l.SelectedIndices()
				sort.Ints(g)
				w := make([]int, 0)
				for k := range st.sel {
					w = append(w, k)
				}
				sort.Ints(w)
				if fmt.Sprint(g) != fmt.Sprint(w) {
					fail("selected %v, want %v", g, w)
				}
				if len(l.SelectedItems()) != len(w) {
					fail("%d selected items, want %d", len(l.SelectedItems()), len(w))
				}
				h := st.h
				if h < 0 {
					h = 0
				}
				rows := l.RenderVisibleItems()
				off := l.ScrollOffset()
				want := h
				if len(st.filt) < want {
					want = len(st.filt)
				}
				if len(rows) != want {
					fail("%d rows shown, want %d (height %d, %d items)", len(rows), want, h, len(st.filt))
				}
				if h > 0 && len(st.filt) > 0 && (off > st.focus || st.focus >= off+len(rows)) {
					fail("focused item %d is not among the %d rows from %d", st.focus, len(rows), off)
				}
				for i, r := range rows {
					if !strings.HasSuffix(r, st.filt[off+i]) {
						fail("row %d is %q, want item %q", i, r, st.filt[off+i])
					}
				}
				for _, sn := range snaps {
					if d := liDump(sn.l); d != sn.d {
						fail("an earlier list changed from %s to %s", sn.d, d)
					}
				}
			}, func() string { return "history " + strings.Join(hist, "; ") })
		}
	}
	govCases(n, "random list histories")
}
