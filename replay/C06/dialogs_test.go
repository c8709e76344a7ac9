//gov:pkg components/modal
package modal_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/confirm"
	"github.com/phoenix-tui/phoenix/components/modal"
	"github.com/phoenix-tui/phoenix/components/modal/internal/domain/service"
	"github.com/phoenix-tui/phoenix/components/modal/internal/domain/value"
	"github.com/phoenix-tui/phoenix/tea"
)

func TestGovModalCentre(t *testing.T) {
	rng := govRand()
	ls := service.NewLayoutService()
	for c := 0; c < govN(20000, 400000) && govFails == 0; c++ {
		tw, th, mw, mh := rng.Intn(140), rng.Intn(60), rng.Intn(140), rng.Intn(60)
		x, y := ls.CalculatePosition(value.NewPositionCenter(), tw, th, mw, mh)
		what := fmt.Sprintf("CalculatePosition(%d,%d,%d,%d,center) = %d,%d", tw, th, mw, mh, x, y)
		bad := func(pos, term, m int) bool {
			if m > term {
				return pos != 0
			}
			l, r := pos, term-m-pos
			return pos < 0 || r < l || r-l > 1
		}
		if bad(x, tw, mw) || bad(y, th, mh) {
			govFail(t, "%s", what)
		}
		px, py := rng.Intn(200)-50, rng.Intn(200)-50
		if x, y := ls.CalculatePosition(value.NewPositionCustom(px, py), tw, th, mw, mh); x != px || y != py {
			govFail(t, "CalculatePosition(%d,%d,%d,%d,custom %d,%d) = %d,%d", tw, th, mw, mh, px, py, x, y)
		}
	}
	govCases(govN(20000, 400000), "centre positions")
}

func TestGovModal(t *testing.T) {
	rng := govRand()
	n := govN(3000, 40000)
	for c := 0; c < n && govFails == 0; c++ {
		var hist []string
		ctx := func() string { return "history " + strings.Join(hist, "; ") }
		fail := func(f string, a ...any) { govFail(t, "%s: %s", ctx(), fmt.Sprintf(f, a...)) }
		m := modal.New("body")
		vis, foc := false, 0
		var btn []modal.Button
		mkb := func() []modal.Button {
			var r []modal.Button
			for i := rng.Intn(5); i > 0; i-- {
				r = append(r, modal.Button{Label: fmt.Sprint("L", len(r)), Key: []string{"", "y", "n", "Y", "q"}[rng.Intn(5)], Action: fmt.Sprintf("a%d.%d", len(r), rng.Intn(1000))})
			}
			return r
		}
		look := func(m *modal.Modal) string {
			return fmt.Sprint(m.IsVisible(), m.FocusedButton(), "|", m.View())
		}
		type snap struct {
			m *modal.Modal
			v string
			h int
		}
		var snaps []snap
		for s := 0; s < 14 && govFails == 0; s++ {
			var cmd tea.Cmd
			want := ""
			op := rng.Intn(13)
			old, wasVis := m, vis
			isMsg := false
			switch op {
			case 0:
				hist = append(hist, "Show")
				m, vis = m.Show(), true
			case 1:
				hist = append(hist, "Hide")
				m, vis = m.Hide(), false
			case 2:
				b := mkb()
				hist = append(hist, fmt.Sprintf("Buttons(%v)", b))
				m, btn, foc = m.Buttons(b), append([]modal.Button(nil), b...), 0
				for i := range b {
					b[i] = modal.Button{Label: "X", Key: "X", Action: "X"}
				}
			case 3:
				m = m.Size(20+rng.Intn(40), 10+rng.Intn(8))
				hist = append(hist, "Size")
			case 4:
				m = m.Centered()
				hist = append(hist, "Centered")
			case 5:
				hist = append(hist, "DimBackground")
				m = m.DimBackground(rng.Intn(2) == 0)
			case 6:
				isMsg = true
				w, h := 60+rng.Intn(60), 20+rng.Intn(20)
				hist = append(hist, fmt.Sprintf("size(%d,%d)", w, h))
				govStep(t, func() { m, cmd = m.Update(tea.WindowSizeMsg{Width: w, Height: h}) }, ctx)
			default:
				isMsg = true
				km := []tea.KeyMsg{{Type: tea.KeyEsc}, {Type: tea.KeyTab}, {Type: tea.KeyTab, Shift: true}, {Type: tea.KeyRight}, {Type: tea.KeyLeft}, {Type: tea.KeyEnter}, {Type: tea.KeyRune, Rune: 'y'}, {Type: tea.KeyRune, Rune: 'Q'}, {Type: tea.KeyRune, Rune: 'z'}, {Type: tea.KeyUp}}[rng.Intn(10)]
				ks := km.String()
				hist = append(hist, "key "+ks)
				govStep(t, func() { m, cmd = m.Update(km) }, ctx)
				if wasVis {
					N := len(btn)
					switch {
					case ks == "esc":
						vis = false
					case ks == "tab" || ks == "→":
						if N > 0 {
							foc = (foc + 1) % N
						}
					case ks == "shift+tab" || ks == "←":
						if N > 0 {
							foc = (foc + N - 1) % N
						}
					case ks == "enter" && N > 0:
						want = btn[foc].Action
					default:
						for _, b := range btn {
							if b.Key != "" && strings.EqualFold(b.Key, ks) {
								want = b.Action
								break
							}
						}
					}
				}
			}
			if govFails > 0 {
				break
			}
			if isMsg && !wasVis && (m != old || cmd != nil) {
				fail("a hidden modal reacted to a message")
			}
			got := ""
			if cmd != nil {
				if bp, ok := cmd().(modal.ButtonPressedMsg); ok {
					got = bp.Action
				} else {
					got = "?"
				}
			}
			if got != want {
				fail("command action %q, want %q", got, want)
			}
			wf := ""
			if len(btn) > 0 {
				wf = btn[foc].Action
			}
			if m.IsVisible() != vis || m.FocusedButton() != wf {
				fail("visible=%v focused=%q, want %v %q", m.IsVisible(), m.FocusedButton(), vis, wf)
			}
			if (m.View() == "") != !vis {
				fail("view %q while visible=%v", m.View(), vis)
			}
			for _, sn := range snaps {
				if look(sn.m) != sn.v {
					fail("value after step %d changed", sn.h)
				}
			}
			snaps = append(snaps, snap{m, look(m), len(hist)})
		}
	}
	govCases(n, "modal histories")
}

func TestGovConfirm(t *testing.T) {
	rng := govRand()
	n := govN(4000, 60000)
	for c := 0; c < n && govFails == 0; c++ {
		var hist []string
		ctx := func() string { return "history " + strings.Join(hist, "; ") }
		fail := func(f string, a ...any) { govFail(t, "%s: %s", ctx(), fmt.Sprintf(f, a...)) }
		m := confirm.New("T")
		lab := []string{"Yes", "No"}
		foc, res := 1, "none"
		answer := func(i int) string {
			switch {
			case lab[i] == "Yes":
				return "yes"
			case lab[i] == "No":
				return "no"
			case lab[i] == "Cancel":
				return "cancel"
			case i == 0:
				return "yes"
			}
			return "no"
		}
		fold := func(r rune) rune {
			if r >= 'A' && r <= 'Z' {
				return r + 32
			}
			return r
		}
		look := func(m *confirm.Confirm) string {
			return fmt.Sprint(m.Done(), m.IsYes(), m.IsNo(), m.IsCanceled(), m.View())
		}
		type snap struct {
			m *confirm.Confirm
			v string
			h int
		}
		var snaps []snap
		names := []string{"Yes", "No", "Delete", "Keep", "Да", "Нет", "ok", "Über"}
		for s := 0; s < 12 && govFails == 0; s++ {
			var cmd tea.Cmd
			done := res != "none"
			wasKey := false
			switch op := rng.Intn(12); {
			case op == 0:
				l := names[rng.Intn(len(names))]
				hist = append(hist, "Affirmative("+l+")")
				m = m.Affirmative(l)
				lab = append([]string{l}, lab[1:]...)
			case op == 1:
				l := names[rng.Intn(len(names))]
				hist = append(hist, "Negative("+l+")")
				m = m.Negative(l)
				lab = append([]string{lab[0], l}, lab[2:]...)
			case op == 2:
				on := rng.Intn(3) > 0
				hist = append(hist, fmt.Sprintf("WithCancel(%v)", on))
				m = m.WithCancel(on)
				lab = append([]string(nil), lab[:2]...)
				if on {
					lab = append(lab, "Cancel")
				} else if foc > 1 {
					foc = 1
				}
			case op == 3:
				hist = append(hist, "DefaultYes")
				m, foc = m.DefaultYes(), 0
			default:
				wasKey = true
				km := []tea.KeyMsg{{Type: tea.KeyEsc}, {Type: tea.KeyCtrlC}, {Type: tea.KeyTab}, {Type: tea.KeyTab, Shift: true}, {Type: tea.KeyRight}, {Type: tea.KeyLeft}, {Type: tea.KeyRight}, {Type: tea.KeyLeft}, {Type: tea.KeyEnter}, {Type: tea.KeyUp}, {Type: tea.KeyRune, Rune: []rune("ynYdkcДНÐÜüoz")[rng.Intn(13)]}, {Type: tea.KeyRune, Rune: 'q'}}[rng.Intn(12)]
				hist = append(hist, "key "+km.String())
				govStep(t, func() { m, cmd = m.Update(km) }, ctx)
				if !done {
					N := len(lab)
					switch km.Type {
					case tea.KeyEsc, tea.KeyCtrlC:
						res = "cancel"
					case tea.KeyEnter:
						res = answer(foc)
					case tea.KeyRight:
						foc = (foc + 1) % N
					case tea.KeyLeft:
						foc = (foc + N - 1) % N
					case tea.KeyTab:
						if km.Shift {
							foc = (foc + N - 1) % N
						} else {
							foc = (foc + 1) % N
						}
					case tea.KeyRune:
						for i, l := range lab {
							if fold([]rune(l)[0]) == fold(km.Rune) {
								foc, res = i, answer(i)
								break
							}
						}
					}
				}
			}
			if govFails > 0 {
				break
			}
			if (cmd != nil) != (wasKey && !done && res != "none") {
				fail("command present=%v with answer %s", cmd != nil, res)
			}
			if cmd != nil {
				r, ok := cmd().(confirm.ConfirmResultMsg)
				if !ok || r.Result != m.Result() {
					fail("command announced %v, result %v", r, m.Result())
				}
			}
			if m.Done() != (res != "none") || m.IsYes() != (res == "yes") || m.IsNo() != (res == "no") || m.IsCanceled() != (res == "cancel") {
				fail("done=%v yes=%v no=%v cancel=%v, want answer %s", m.Done(), m.IsYes(), m.IsNo(), m.IsCanceled(), res)
			}
			var bs []string
			for i, l := range lab {
				if i == foc {
					bs = append(bs, "[ "+l+" ]")
				} else {
					bs = append(bs, "( "+l+" )")
				}
			}
			if w := "T\n\n" + strings.Join(bs, "  "); m.View() != w {
				fail("view %q, want %q", m.View(), w)
			}
			for _, sn := range snaps {
				if look(sn.m) != sn.v {
					fail("value after step %d changed", sn.h)
				}
			}
			snaps = append(snaps, snap{m, look(m), len(hist)})
		}
	}
	govCases(n, "confirm histories")
}
