//gov:pkg components/input/internal/input/domain/model
package model_test

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/phoenix-tui/phoenix/components/input/internal/input/domain/model"
	"github.com/phoenix-tui/phoenix/components/input/internal/input/domain/service"
	"github.com/rivo/uniseg"
)

func tiClusters(s string) []string {
	var r []string
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		r = append(r, g.Str())
	}
	return r
}
func tiJoin(c []string) string { return strings.Join(c, "") }

// the expected state: plain text, cursor, selection
type tiState struct {
	s          string
	c          int
	sel        bool
	a, b       int
	width      int
	focus, sho bool
}

func (m *tiState) n() int { return len(tiClusters(m.s)) }
func tiClamp(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}
func (m *tiState) cutSel() {
	cl := tiClusters(m.s)
	m.s = tiJoin(cl[:m.a]) + tiJoin(cl[m.b:])
	m.c, m.sel = m.a, false
}
func (m *tiState) insert(r rune) {
	if m.sel {
		m.cutSel()
	}
	cl := tiClusters(m.s)
	head := tiJoin(cl[:m.c]) + string(r)
	m.s = head + tiJoin(cl[m.c:])
	m.c = len(tiClusters(head))
}
func (m *tiState) back() {
	if m.sel {
		m.cutSel()
		return
	}
	if m.c > 0 {
		cl := tiClusters(m.s)
		m.s = tiJoin(cl[:m.c-1]) + tiJoin(cl[m.c:])
		m.c--
	}
}
func (m *tiState) del() {
	if m.sel {
		m.cutSel()
		return
	}
	if cl := tiClusters(m.s); m.c < len(cl) {
		m.s = tiJoin(cl[:m.c]) + tiJoin(cl[m.c+1:])
	}
}
func (m *tiState) content(s string) {
	m.s = s
	n := m.n()
	m.c = tiClamp(m.c, 0, n)
	if m.sel {
		m.a, m.b = tiClamp(m.a, 0, n), tiClamp(m.b, 0, n)
		m.sel = m.a < m.b
	}
}

var tiAlphabet = []string{"a", "b", " ", "é", "e\u0301", "中", "文", "👩‍👩‍👧", "👍🏽", "🇺🇸", "\u0301", "한", "ᄒ", "ᅡ", "\u200d", "क्ष", "\t", "\n"}
var tiRunes = []rune{'a', 'Z', ' ', 'é', '中', '👍', '🏽', '\u0301', '\u200d', '🇺', '🇸', 'ᄒ', 'ᅡ', '\u0e33', '\n', '\u0600', 0, utf8.RuneError}

func TestGovTextInput(t *testing.T) {
	rng := govRand()
	text := func() string {
		var b strings.Builder
		for i := rng.Intn(7); i > 0; i-- {
			b.WriteString(tiAlphabet[rng.Intn(len(tiAlphabet))])
		}
		return b.String()
	}
	n := govN(4000, 60000)
	for it := 0; it < n; it++ {
		in := *model.New(rng.Intn(12) - 2)
		m := &tiState{width: tiClamp(in.Width(), 1, 20)}
		var log []string
		ctx := func() string { return strings.Join(log, "\n") }
		for op := 0; op < 14; op++ {
			prev, pm := in, *m
			x, y := rng.Intn(14)-3, rng.Intn(14)-3
			s := text()
			var what string
			ok := govStep(t, func() {
				switch rng.Intn(16) {
				case 0:
					what = fmt.Sprintf("WithContent(%q)", s)
					in = in.WithContent(s)
					m.content(s)
				case 1:
					what = fmt.Sprintf("SetContent(%q, %d)", s, x)
					in = in.SetContent(s, x)
					m.s = s
					m.c, m.sel = tiClamp(x, 0, m.n()), false
				case 2:
					what = fmt.Sprintf("WithCursor(%d)", x)
					in = in.WithCursor(x)
					m.c = tiClamp(x, 0, m.n())
				case 3, 4:
					what = fmt.Sprintf("WithSelection(%d, %d)", x, y)
					in = in.WithSelection(x, y)
					k := m.n()
					a, b := tiClamp(x, 0, k), tiClamp(y, 0, k)
					if a > b {
						a, b = b, a
					}
					m.a, m.b, m.sel, m.c = a, b, a < b, b
				case 5:
					what = "MoveLeft"
					in = in.MoveLeft()
					m.c, m.sel = tiClamp(m.c-1, 0, m.n()), false
				case 6:
					what = "MoveRight"
					in = in.MoveRight()
					m.c, m.sel = tiClamp(m.c+1, 0, m.n()), false
				case 7:
					what = "MoveHome"
					in = in.MoveHome()
					m.c, m.sel = 0, false
				case 8:
					what = "MoveEnd"
					in = in.MoveEnd()
					m.c, m.sel = m.n(), false
				case 9, 10:
					r := tiRunes[rng.Intn(len(tiRunes))]
					what = fmt.Sprintf("InsertRune(%q)", r)
					in = in.InsertRune(r)
					m.insert(r)
				case 11, 12:
					what = "DeleteBackward"
					in = in.DeleteBackward()
					m.back()
				case 13:
					what = "DeleteForward"
					in = in.DeleteForward()
					m.del()
				case 14:
					what = "SelectAll"
					in = in.SelectAll()
					m.a, m.b = 0, m.n()
					m.sel, m.c = m.b > 0, m.b
				case 15:
					switch rng.Intn(6) {
					case 0:
						what = "Clear"
						in = in.Clear()
						m.s, m.c, m.sel = "", 0, false
					case 1:
						what = "ClearSelection"
						in = in.ClearSelection()
						m.sel = false
					case 2:
						what = fmt.Sprintf("WithWidth(%d)", x)
						in = in.WithWidth(x)
						m.width = tiClamp(x, 1, 99)
					case 3:
						what = "WithFocus(true)"
						in = in.WithFocus(true)
						m.focus = true
					case 4:
						what = "WithShowCursor"
						in = in.WithShowCursor(x > 3)
					case 5:
						what = "WithPlaceholder"
						in = in.WithPlaceholder(s)
						if in.Placeholder() != s {
							govFail(t, "placeholder %q, want %q", in.Placeholder(), s)
						}
					}
				}
			}, func() string { return ctx() + "\n" + what })
			log = append(log, what)
			if !ok {
				return
			}
			cl := tiClusters(m.s)
			if in.Content() != m.s || in.CursorPosition() != m.c || in.Width() != m.width || in.Focused() != m.focus {
				govFail(t, "%s\ncontent %q cursor %d width %d focus %v; want %q, %d, %d, %v", ctx(), in.Content(), in.CursorPosition(), in.Width(), in.Focused(), m.s, m.c, m.width, m.focus)
				return
			}
			if in.HasSelection() != m.sel || m.sel && (in.Selection().Start() != m.a || in.Selection().End() != m.b) {
				govFail(t, "%s\nselection %v %+v; want %v %d..%d", ctx(), in.HasSelection(), in.Selection(), m.sel, m.a, m.b)
				return
			}
			be, at, af := in.ContentParts()
			wb, wa, wf := tiJoin(cl[:m.c]), "", ""
			if m.c < len(cl) {
				wa, wf = cl[m.c], tiJoin(cl[m.c+1:])
			}
			if be != wb || at != wa || af != wf {
				govFail(t, "%s\nparts %q %q %q; want %q %q %q", ctx(), be, at, af, wb, wa, wf)
				return
			}
			// the value derived from is unchanged
			if prev.Content() != pm.s || prev.CursorPosition() != pm.c || prev.HasSelection() != pm.sel {
				govFail(t, "%s\nthe input before the last step changed: %q cursor %d", ctx(), prev.Content(), prev.CursorPosition())
				return
			}
		}
	}
	govCases(n, "text input edit sequences")
}

func TestGovOffsets(t *testing.T) {
	rng := govRand()
	svc := service.NewCursorMovementService()
	n := govN(5000, 80000)
	for it := 0; it < n; it++ {
		var b strings.Builder
		for i := rng.Intn(7); i > 0; i-- {
			b.WriteString(tiAlphabet[rng.Intn(len(tiAlphabet))])
		}
		s := b.String()
		cl := tiClusters(s)
		if g := svc.GraphemeCount(s); g != len(cl) {
			govFail(t, "GraphemeCount(%q) = %d, want %d", s, g, len(cl))
		}
		for p := -2; p <= len(cl)+2; p++ {
			k := tiClamp(p, 0, len(cl))
			if g := svc.GraphemeOffsetToByteOffset(s, p); g != len(tiJoin(cl[:k])) {
				govFail(t, "GraphemeOffsetToByteOffset(%q, %d) = %d, want %d", s, p, g, len(tiJoin(cl[:k])))
			}
			if g := svc.MoveLeft(s, p); g != tiClamp(p-1, 0, len(cl)) {
				govFail(t, "MoveLeft(%q, %d) = %d", s, p, g)
			}
			if p >= 0 {
				if g := svc.MoveRight(s, p); g != tiClamp(p+1, 0, len(cl)) {
					govFail(t, "MoveRight(%q, %d) = %d", s, p, g)
				}
			}
		}
		for o := -2; o <= len(s)+2; o++ {
			w, pos := 0, 0
			for w < len(cl) && pos+len(cl[w]) <= o {
				pos += len(cl[w])
				w++
			}
			if g := svc.ByteOffsetToGraphemeOffset(s, o); g != w {
				govFail(t, "ByteOffsetToGraphemeOffset(%q, %d) = %d, want %d", s, o, g, w)
			}
		}
		if govFails > 0 {
			return
		}
	}
	govCases(n, "texts for the offset conversions")
}
