//gov:pkg components/input
package input_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/input"
	"github.com/phoenix-tui/phoenix/tea"
)

// g11 is a plain text with a cursor: what a text area must behave like
type g11 struct {
	ls       []string
	row, col int
	kill     string
}

func (w g11) line() []rune { return []rune(w.ls[w.row]) }
func g11sep(r rune) bool   { return strings.ContainsRune(" .,-\t", r) }
func (w g11) set(from, to int, lines ...string) g11 {
	ls := append([]string{}, w.ls[:from]...)
	ls = append(ls, lines...)
	w.ls = append(ls, w.ls[to:]...)
	return w
}
func (w g11) at(row, col int) g11 { w.row, w.col = row, col; return w }
func (w g11) insert(s string) g11 {
	l := w.line()
	parts := strings.Split(s, "\n")
	last := len([]rune(parts[len(parts)-1]))
	if len(parts) == 1 {
		last += w.col
	}
	parts[0] = string(l[:w.col]) + parts[0]
	parts[len(parts)-1] += string(l[w.col:])
	return w.set(w.row, w.row+1, parts...).at(w.row+len(parts)-1, last)
}
func (w g11) cut(to int) g11 { // from the cursor to a column of its line
	l := w.line()
	return w.set(w.row, w.row+1, string(l[:w.col])+string(l[to:]))
}
func (w g11) join() g11 { return w.set(w.row, w.row+2, w.ls[w.row]+w.ls[w.row+1]) }
func (w g11) vert(d int) g11 {
	if w.row+d < 0 || w.row+d >= len(w.ls) {
		return w
	}
	w.row += d
	if n := len(w.line()); w.col > n {
		w.col = n
	}
	return w
}
func (w g11) left() g11 {
	if w.col > 0 {
		w.col--
	} else if w.row > 0 {
		w.row--
		w.col = len(w.line())
	}
	return w
}
func (w g11) right() g11 {
	if w.col < len(w.line()) {
		w.col++
	} else if w.row < len(w.ls)-1 {
		w.row, w.col = w.row+1, 0
	}
	return w
}
func (w g11) start(i int) bool { // a word begins at column i
	l := w.line()
	return i > 0 && i < len(l) && g11sep(l[i-1]) && !g11sep(l[i])
}
func (w g11) wordLeft() g11 {
	if w.col > 0 {
		for w.col--; w.col > 0 && !w.start(w.col); w.col-- {
		}
	}
	return w
}
func (w g11) wordRight() g11 {
	if w.col < len(w.line()) {
		for w.col++; w.col < len(w.line()) && !w.start(w.col); w.col++ {
		}
	}
	return w
}

type g11op struct {
	name string
	msg  tea.KeyMsg
	f    func(g11) g11
}

func g11key(t tea.KeyType) tea.KeyMsg { return tea.KeyMsg{Type: t} }
func g11ctl(r rune) tea.KeyMsg        { return tea.KeyMsg{Type: tea.KeyRune, Rune: r, Ctrl: true} }
func g11alt(r rune) tea.KeyMsg        { return tea.KeyMsg{Type: tea.KeyRune, Rune: r, Alt: true} }

func g11ops() []g11op {
	bs := func(w g11) g11 {
		if w.col > 0 {
			w.col--
			return w.cut(w.col + 1)
		}
		if w.row > 0 {
			w = w.left()
			return w.join()
		}
		return w
	}
	del := func(w g11) g11 {
		if w.col < len(w.line()) {
			return w.cut(w.col + 1)
		}
		if w.row < len(w.ls)-1 {
			return w.join()
		}
		return w
	}
	home := func(w g11) g11 { return w.at(w.row, 0) }
	end := func(w g11) g11 { return w.at(w.row, len(w.line())) }
	up := func(w g11) g11 { return w.vert(-1) }
	down := func(w g11) g11 { return w.vert(1) }
	nl := func(w g11) g11 { return w.insert("\n") }
	killLine := func(w g11) g11 {
		l := w.line()
		if w.col < len(l) {
			w.kill = string(l[w.col:])
			return w.cut(len(l))
		}
		if w.row < len(w.ls)-1 {
			w.kill = "\n"
			return w.join()
		}
		return w
	}
	killWord := func(w g11) g11 {
		l, to := w.line(), w.col
		for to < len(l) && !g11sep(l[to]) {
			to++
		}
		if to > w.col {
			w.kill = string(l[w.col:to])
		}
		return w.cut(to)
	}
	killBack := func(w g11) g11 {
		to := w.col
		w = w.wordLeft()
		if to > w.col {
			w.kill = string(w.line()[w.col:to])
		}
		return w.cut(to)
	}
	return []g11op{
		{"up", g11key(tea.KeyUp), up}, {"ctrl+p", g11ctl('p'), up},
		{"down", g11key(tea.KeyDown), down}, {"ctrl+n", g11ctl('n'), down},
		{"left", g11key(tea.KeyLeft), g11.left}, {"ctrl+b", g11ctl('b'), g11.left},
		{"right", g11key(tea.KeyRight), g11.right}, {"ctrl+f", g11ctl('f'), g11.right},
		{"home", g11key(tea.KeyHome), home}, {"ctrl+a", g11ctl('a'), home},
		{"end", g11key(tea.KeyEnd), end}, {"ctrl+e", g11ctl('e'), end},
		{"backspace", g11key(tea.KeyBackspace), bs}, {"ctrl+h", g11ctl('h'), bs},
		{"delete", g11key(tea.KeyDelete), del}, {"ctrl+d", g11ctl('d'), del},
		{"enter", g11key(tea.KeyEnter), nl}, {"ctrl+m", g11ctl('m'), nl},
		{"ctrl+k", g11ctl('k'), killLine}, {"alt+d", g11alt('d'), killWord},
		{"ctrl+w", g11ctl('w'), killBack},
		{"alt+backspace", tea.KeyMsg{Type: tea.KeyBackspace, Alt: true}, killBack},
		{"ctrl+y", g11ctl('y'), func(w g11) g11 { return w.insert(w.kill) }},
		{"alt+f", g11alt('f'), g11.wordRight}, {"alt+b", g11alt('b'), g11.wordLeft},
		{"alt+<", g11alt('<'), func(w g11) g11 { return w.at(0, 0) }},
		{"alt+>", g11alt('>'), func(w g11) g11 { w.row = len(w.ls) - 1; return w.at(w.row, len(w.line())) }},
		{"space", g11key(tea.KeySpace), func(w g11) g11 { return w.insert(" ") }},
	}
}

// g11same compares what the text area shows with what it must be
func g11same(ta input.TextArea, w g11) string {
	row, col := ta.CursorPosition()
	if row != w.row || col != w.col {
		return fmt.Sprintf("cursor is (%d,%d), want (%d,%d)", row, col, w.row, w.col)
	}
	if v := ta.Value(); v != strings.Join(w.ls, "\n") {
		return fmt.Sprintf("text is %q, want %q", v, strings.Join(w.ls, "\n"))
	}
	l := w.line()
	before, at, after := ta.ContentParts()
	wa, wn := " ", ""
	if col < len(l) {
		wa, wn = string(l[col:col+1]), string(l[col+1:])
	}
	if before != string(l[:col]) || at != wa || after != wn {
		return fmt.Sprintf("ContentParts = %q %q %q", before, at, after)
	}
	if ta.CurrentLine() != w.ls[row] || ta.LineCount() != len(w.ls) {
		return fmt.Sprintf("CurrentLine %q LineCount %d", ta.CurrentLine(), ta.LineCount())
	}
	return ""
}

func g11valid(ta input.TextArea) string {
	row, col := ta.CursorPosition()
	ls := strings.Split(ta.Value(), "\n")
	if row < 0 || row >= len(ls) || col < 0 || col > len([]rune(ls[row])) {
		return fmt.Sprintf("cursor (%d,%d) is outside %q", row, col, ta.Value())
	}
	return ""
}

func TestGovCursor(t *testing.T) {
	r := govRand()
	n := govN(2500, 120000)
	ops := g11ops()
	al := []rune("abc  .-é世́👍")
	seen := 0
	for c := 0; c < n; c++ {
		var ls []string
		for i := 1 + r.Intn(4); i > 0; i-- {
			s := ""
			for j := r.Intn(9); j > 0; j-- {
				s += string(al[r.Intn(len(al))])
			}
			ls = append(ls, s)
		}
		ta := input.NewTextArea().Size(1+r.Intn(9), 1+r.Intn(4)).SetValue(strings.Join(ls, "\n"))
		w := g11{ls: ls}
		h := []string{fmt.Sprintf("SetValue(%q)", strings.Join(ls, "\n"))}
		for j := 0; j < 3+r.Intn(30); j++ {
			old, oldw := ta, w
			op := ""
			free := false // what the text becomes is not specified: only the cursor is checked
			bad := govTry(func() {
				switch k := r.Intn(10); {
				case k < 6:
					o := ops[r.Intn(len(ops))]
					op = o.name
					ta, _ = ta.Update(o.msg)
					w = o.f(w)
				case k < 8:
					ch := al[r.Intn(len(al))]
					op = fmt.Sprintf("type %q", ch)
					ta, _ = ta.Update(tea.KeyMsg{Type: tea.KeyRune, Rune: ch})
					w = w.insert(string(ch))
				default:
					switch r.Intn(6) {
					case 0:
						op = "MoveCursorToEnd"
						ta = ta.MoveCursorToEnd()
						w.row = len(w.ls) - 1
						w.col = len(w.line())
					case 1, 2:
						row, col := r.Intn(8)-2, r.Intn(14)-2
						op = fmt.Sprintf("SetCursorPosition(%d,%d)", row, col)
						ta = ta.SetCursorPosition(row, col)
						w.row = min(max(row, 0), len(w.ls)-1)
						w.col = min(max(col, 0), len(w.line()))
					case 3:
						op = "Width(5)"
						ta = ta.Width(5).Height(2).ShowLineNumbers(true).ShowCursor(true)
					case 4:
						op = "read only key"
						o := ops[r.Intn(len(ops))]
						x, _ := ta.ReadOnly(true).Update(o.msg)
						if x.Value() != ta.Value() {
							panic("a read-only text area changed on " + o.name)
						}
						if e := g11valid(x); e != "" {
							panic(e)
						}
					default:
						op = "ctrl+u"
						free = true
						ta, _ = ta.Update(g11ctl('u'))
					}
				}
			})
			h = append(h, op)
			if bad != nil {
				govFail(t, "panic %v: %s", bad, strings.Join(h, "; "))
				return
			}
			seen++
			if e := g11valid(ta); e != "" {
				govFail(t, "%s: %s", e, strings.Join(h, "; "))
				return
			}
			if free {
				w.row, w.col = ta.CursorPosition()
				w.ls = strings.Split(ta.Value(), "\n")
				y, _ := input.TextArea.Update(ta, g11ctl('y'))
				if e := g11valid(y); e != "" {
					govFail(t, "%s: %s; ctrl+y", e, strings.Join(h, "; "))
					return
				}
				break
			}
			if e := g11same(ta, w); e != "" {
				govFail(t, "%s: %s", e, strings.Join(h, "; "))
				return
			}
			if e := g11same(old, oldw); e != "" {
				govFail(t, "the text area before the last step changed: %s: %s", e, strings.Join(h, "; "))
				return
			}
		}
	}
	govCases(seen, "key sequences against a plain text with a cursor")
}

func TestGovCursorValidated(t *testing.T) {
	r := govRand()
	n := govN(800, 40000)
	ops := g11ops()
	seen := 0
	for c := 0; c < n; c++ {
		mr, mc := r.Intn(3), r.Intn(5)
		hits := 0
		ta := input.NewTextArea().SetValue("prompt here\nsecond  line.\n\nfourth").OnMovement(func(from, to input.CursorPos) bool {
			return to.Row > mr || to.Row == mr && to.Col >= mc
		}).OnBoundaryHit(func(input.CursorPos, string) { hits++ }).SetCursorPosition(mr, mc)
		h := []string{fmt.Sprintf("cursor kept at or after (%d,%d)", mr, mc)}
		for j := 0; j < 20; j++ {
			o := ops[r.Intn(len(ops))]
			h = append(h, o.name)
			before := ta.Value()
			row0, col0 := ta.CursorPosition()
			bad := govTry(func() { ta, _ = ta.Update(o.msg) })
			seen++
			if bad != nil {
				govFail(t, "panic %v: %s", bad, strings.Join(h, "; "))
				return
			}
			if e := g11valid(ta); e != "" {
				govFail(t, "%s: %s", e, strings.Join(h, "; "))
				return
			}
			row, col := ta.CursorPosition()
			if (row != row0 || col != col0) && ta.Value() == before && (row < mr || row == mr && col < mc) {
				govFail(t, "cursor moved to (%d,%d): %s", row, col, strings.Join(h, "; "))
				return
			}
			if row < mr || row == mr && col < mc {
				break
			}
		}
	}
	govCases(seen, "keys with a movement validator")
}
