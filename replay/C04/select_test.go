//gov:pkg components/select
package selectcomponent_test

import (
	"fmt"
	"strings"
	"testing"

	sel "github.com/phoenix-tui/phoenix/components/select"
	"github.com/phoenix-tui/phoenix/components/select/internal/domain/value"
	"github.com/phoenix-tui/phoenix/tea"
)

func TestGovSelect(t *testing.T) {
	rng := govRand()
	n := govN(3000, 40000)
	words := []string{"a", "b", "ab", "abc", "ba", "B", "Ab", "c", "cab", "é", "日本"}
	for c := 0; c < n && govFails == 0; c++ {
		var hist []string
		ctx := func() string { return "history " + strings.Join(hist, "; ") }
		fail := func(f string, a ...any) { govFail(t, "%s: %s", ctx(), fmt.Sprintf(f, a...)) }
		var labels []string
		var opts []*value.Option[int]
		var filt []int
		cursor, chosen, h, query := 0, -1, 10, ""
		filterable := rng.Intn(4) > 0
		k := rng.Intn(16)
		for i := 0; i < k; i++ {
			w := words[rng.Intn(len(words))]
			labels = append(labels, w)
			opts = append(opts, value.NewOption(w, i))
			filt = append(filt, i)
		}
		s := sel.New[int]("").Options(opts...).WithFilterable(filterable)
		hist = append(hist, fmt.Sprintf("Options(%q) filterable=%v", labels, filterable))
		dump := func(s *sel.Select[int]) string {
			a, b := s.SelectedValue()
			d, e := s.FocusedValue()
			return fmt.Sprint(a, b, d, e, s.View())
		}
		filter := func(q string) {
			query = q
			filt = nil
			for i, l := range labels {
				if strings.Contains(strings.ToLower(l), strings.ToLower(q)) {
					filt = append(filt, i)
				}
			}
			if cursor >= len(filt) {
				cursor = len(filt) - 1
			}
			if cursor < 0 {
				cursor = 0
			}
		}
		key := func(m tea.KeyMsg) {
			hist = append(hist, "key "+m.String())
			s, _ = s.Update(m)
		}
		type snap struct {
			s *sel.Select[int]
			d string
		}
		var snaps []snap
		for st := 1 + rng.Intn(16); st > 0 && govFails == 0; st-- {
			govStep(t, func() {
				snaps = append(snaps, snap{s, dump(s)})
				cnt := len(filt)
				switch rng.Intn(11) {
				case 0:
					key(tea.KeyMsg{Type: tea.KeyUp})
					if cursor > 0 {
						cursor--
					}
				case 1, 2, 3:
					key(tea.KeyMsg{Type: tea.KeyDown})
					if cursor < cnt-1 {
						cursor++
					}
				case 4:
					key(tea.KeyMsg{Type: tea.KeyHome})
					cursor = 0
				case 5:
					key(tea.KeyMsg{Type: tea.KeyEnd})
					cursor = cnt - 1
					if cnt == 0 {
						cursor = 0
					}
				case 6, 7:
					hist = append(hist, "key enter")
					var cmd tea.Cmd
					s, cmd = s.Update(tea.KeyMsg{Type: tea.KeyEnter})
					if cnt > 0 {
						chosen = filt[cursor]
					}
					if cmd == nil {
						fail("enter gives no command")
					} else if m, ok := cmd().(sel.ConfirmSelectionMsg[int]); !ok || m.OK != (chosen >= 0) || m.OK && m.Value != chosen {
						fail("enter reports %v, want option %d", m, chosen)
					}
				case 8:
					r := []rune("abcé日")[rng.Intn(5)]
					key(tea.KeyMsg{Type: tea.KeyRune, Rune: r})
					if filterable {
						filter(query + string(r))
					}
				case 9:
					key(tea.KeyMsg{Type: tea.KeyEsc})
					filter("")
				case 10:
					h = rng.Intn(7) - 1
					hist = append(hist, fmt.Sprintf("WithHeight(%d)", h))
					s = s.WithHeight(h)
					if h < 1 {
						h = 1
					}
				}
				got, ok := s.SelectedValue()
				if ok != (chosen >= 0) || ok && got != chosen {
					fail("selected %v (%v), want option %d", got, ok, chosen)
				}
				got, ok = s.FocusedValue()
				if ok != (len(filt) > 0) || ok && got != filt[cursor] {
					fail("focused %v (%v), want cursor %d of %v", got, ok, cursor, filt)
				}
				view := s.View()
				if filterable {
					view = view[:strings.LastIndex(view, "\n\n")]
				}
				lines := strings.Split(view, "\n")
				if len(filt) == 0 {
					return
				}
				at := -1
				for i, l := range lines {
					if strings.HasPrefix(l, "> ") {
						if at >= 0 {
							fail("two focused lines in %q", lines)
						}
						at = i
					}
				}
				if at < 0 || len(lines) > h || len(lines) > len(filt) {
					fail("window %q, height %d, cursor %d of %v", lines, h, cursor, filt)
					return
				}
				for i, l := range lines {
					p := cursor - at + i
					if p < 0 || p >= len(filt) {
						fail("window %q does not match the options shown", lines)
						return
					}
					want := "  " + labels[filt[p]]
					if i == at {
						want = "> " + want[2:]
					}
					if l != want {
						fail("line %q, want %q", l, want)
					}
				}
				for _, x := range snaps {
					if d := dump(x.s); d != x.d {
						fail("an earlier value changed from %s to %s", x.d, d)
					}
				}
			}, ctx)
		}
	}
	govCases(n, "select histories")
}
