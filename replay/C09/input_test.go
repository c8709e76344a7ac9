//gov:pkg components/input
package input_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/input"
	"github.com/phoenix-tui/phoenix/tea"
	"github.com/rivo/uniseg"
)

func inClusters(s string) []string {
	var r []string
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		r = append(r, g.Str())
	}
	return r
}

func TestGovInputKeys(t *testing.T) {
	rng := govRand()
	alpha := []string{"a", "bc", " ", "é", "e\u0301", "中", "👩‍👩‍👧", "🇺🇸", "\u0301"}
	runes := []rune{'a', 'u', 'e', 'é', '中', '\u0301', '👍'}
	n := govN(3000, 40000)
	for it := 0; it < n; it++ {
		var b strings.Builder
		for i := rng.Intn(6); i > 0; i-- {
			b.WriteString(alpha[rng.Intn(len(alpha))])
		}
		start := b.String()
		pos := rng.Intn(8) - 1
		foc := rng.Intn(8) > 0
		in := input.New(4 + rng.Intn(30)).SetContent(start, pos).Focused(foc)
		cl := inClusters(start)
		c := pos
		if c < 0 {
			c = 0
		}
		if c > len(cl) {
			c = len(cl)
		}
		s, sel := start, false
		log := []string{fmt.Sprintf("SetContent(%q, %d) focused %v", start, pos, foc)}
		for op := 0; op < 12; op++ {
			var k tea.KeyMsg
			cl = inClusters(s)
			j := func(a, b int) string { return strings.Join(cl[a:b], "") }
			ns, nc, nsel := s, c, false
			typed := func(r rune) {
				if sel {
					ns = string(r)
					nc = len(inClusters(ns))
					return
				}
				head := j(0, c) + string(r)
				ns, nc = head+j(c, len(cl)), len(inClusters(head))
			}
			switch rng.Intn(12) {
			case 0:
				k = tea.KeyMsg{Type: tea.KeyLeft}
				if nc > 0 {
					nc--
				}
			case 1:
				k = tea.KeyMsg{Type: tea.KeyRight}
				if nc < len(cl) {
					nc++
				}
			case 2:
				k = tea.KeyMsg{Type: tea.KeyHome}
				nc = 0
			case 3:
				k = tea.KeyMsg{Type: tea.KeyEnd}
				nc = len(cl)
			case 4, 5:
				k = tea.KeyMsg{Type: tea.KeyBackspace}
				if sel {
					ns, nc = "", 0
				} else if c > 0 {
					ns, nc = j(0, c-1)+j(c, len(cl)), c-1
				}
			case 6:
				k = tea.KeyMsg{Type: tea.KeyDelete}
				if sel {
					ns, nc = "", 0
				} else if c < len(cl) {
					ns = j(0, c) + j(c+1, len(cl))
				}
			case 7:
				k = tea.KeyMsg{Type: tea.KeySpace, Rune: ' '}
				typed(' ')
			case 8, 9:
				r := runes[rng.Intn(len(runes))]
				k = tea.KeyMsg{Type: tea.KeyRune, Rune: r}
				typed(r)
			case 10:
				switch rng.Intn(3) {
				case 0:
					k = tea.KeyMsg{Type: tea.KeyRune, Rune: 'a', Ctrl: true}
					nc = len(cl)
					nsel = len(cl) > 0
				case 1:
					k = tea.KeyMsg{Type: tea.KeyRune, Rune: 'u', Ctrl: true}
					ns, nc = "", 0
				case 2:
					k = tea.KeyMsg{Type: tea.KeyRune, Rune: 'e', Ctrl: true}
					nc = len(cl)
				}
			case 11:
				k = tea.KeyMsg{Type: tea.KeyF1}
				nsel = sel
			}
			if !foc {
				ns, nc, nsel = s, c, sel
			}
			log = append(log, fmt.Sprintf("key %+v", k))
			old := in
			if !govStep(t, func() { in, _ = in.Update(k); in.View() }, func() string { return strings.Join(log, "\n") }) {
				return
			}
			if in.Value() != ns || in.CursorPosition() != nc {
				govFail(t, "%s\nvalue %q cursor %d; want %q %d", strings.Join(log, "\n"), in.Value(), in.CursorPosition(), ns, nc)
				return
			}
			if x, y, z := in.ContentParts(); x+y+z != ns {
				govFail(t, "%s\nparts %q %q %q of %q", strings.Join(log, "\n"), x, y, z, ns)
				return
			}
			if old.Value() != s || old.CursorPosition() != c {
				govFail(t, "%s\nthe input before the last key changed", strings.Join(log, "\n"))
				return
			}
			s, c, sel = ns, nc, nsel
		}
	}
	govCases(n, "text input key sequences")
}
