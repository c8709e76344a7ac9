//gov:pkg components/viewport
package viewport_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/viewport"
	"github.com/phoenix-tui/phoenix/tea"
)

type vpState struct {
	lines  []string
	off    int
	w, h   int
	follow bool
	wrap   bool
	known  bool // follow known
}

func vpMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// cut to width over an alphabet of 'a'..'z' (1 column) and 世 (2 columns)
func vpCut(s string, w int) string {
	c := 0
	for i, r := range s {
		k := 1
		if r > 0x1000 {
			k = 2
		}
		if c+k > w {
			return s[:i]
		}
		c += k
	}
	return s
}

func TestGovViewport(t *testing.T) {
	rng := govRand()
	n := govN(3000, 40000)
	for c := 0; c < n && govFails == 0; c++ {
		var hist []string
		line := func() string {
			var b strings.Builder
			for k := rng.Intn(9); k > 0; k-- {
				if rng.Intn(5) == 0 {
					b.WriteRune('世')
				} else {
					b.WriteByte(byte('a' + rng.Intn(26)))
				}
			}
			return b.String()
		}
		mkLines := func() []string {
			ls := make([]string, rng.Intn(13))
			for i := range ls {
				ls[i] = line()
			}
			return ls
		}
		dim := func() int {
			if rng.Intn(8) == 0 {
				return -rng.Intn(4)
			}
			return rng.Intn(9)
		}
		st := vpState{w: dim(), h: dim()}
		v := viewport.New(st.w, st.h)
		hist = append(hist, fmt.Sprintf("New(%d,%d)", st.w, st.h))
		wheel := 3
		mouse := false
		drag := false
		dragY, dragOff := 0, 0
		wh := func() int { return vpMax(st.h, 0) }
		maxOff := func() int { return vpMax(len(st.lines)-wh(), 0) }
		type snap struct {
			v    *viewport.Viewport
			off  int
			view string
			tot  int
		}
		var snaps []snap
		fail := func(f string, a ...any) {
			govFail(t, "history %s: %s", strings.Join(hist, "; "), fmt.Sprintf(f, a...))
		}
		set := func(ls []string) {
			st.lines = append([]string(nil), ls...)
			if st.follow {
				st.off = maxOff()
			} else if st.off > maxOff() {
				st.off = maxOff()
			}
		}
		up := func(k int) { st.off = vpMax(st.off-k, 0); st.follow = false }
		down := func(k int) {
			st.off += k
			if st.off > maxOff() {
				st.off = maxOff()
			}
			if st.off >= maxOff() {
				st.follow = true
			}
		}
		steps := 1 + rng.Intn(14)
		for s := 0; s < steps && govFails == 0; s++ {
			snaps = append(snaps, snap{v, v.ScrollOffset(), v.View(), v.TotalLines()})
			key := func(k tea.KeyMsg) { v, _ = v.Update(k) }
			switch op := rng.Intn(19); op {
			case 0:
				ls := mkLines()
				hist = append(hist, fmt.Sprintf("SetLines(%q)", ls))
				v = v.SetLines(ls)
				set(ls)
				for i := range ls {
					ls[i] = "CLOBBERED"
				}
			case 1:
				ls := mkLines()
				hist = append(hist, fmt.Sprintf("AppendLines(%q)", ls))
				cp := append([]string(nil), ls...)
				v = v.AppendLines(ls)
				if fmt.Sprint(cp) != fmt.Sprint(ls) {
					fail("AppendLines changed the caller's slice")
				}
				set(append(append([]string(nil), st.lines...), ls...))
			case 2:
				l := line()
				hist = append(hist, fmt.Sprintf("AppendLine(%q)", l))
				v = v.AppendLine(l)
				set(append(append([]string(nil), st.lines...), l))
			case 3:
				l := strings.Join(mkLines(), "\n")
				hist = append(hist, fmt.Sprintf("SetContent(%q)", l))
				v = v.SetContent(l)
				set(strings.Split(l, "\n"))
			case 4:
				st.w, st.h = dim(), dim()
				hist = append(hist, fmt.Sprintf("SetSize(%d,%d)", st.w, st.h))
				if rng.Intn(2) == 0 {
					v = v.SetSize(st.w, st.h)
				} else {
					v, _ = v.Update(tea.WindowSizeMsg{Width: st.w, Height: st.h})
				}
				if v.ScrollOffset() != st.off && !(st.follow && v.ScrollOffset() == maxOff()) && st.off <= maxOff() {
					fail("resize moved the window from %d to %d although it still fits", st.off, v.ScrollOffset())
				}
				if st.off > maxOff() || st.follow {
					st.off = v.ScrollOffset()
				}
			case 5:
				st.follow = rng.Intn(2) == 0
				hist = append(hist, fmt.Sprintf("FollowMode(%v)", st.follow))
				v = v.FollowMode(st.follow)
				if st.follow {
					st.off = maxOff()
				}
			case 6:
				hist = append(hist, "ScrollToBottom")
				v = v.ScrollToBottom()
				st.off, st.follow = maxOff(), true
			case 7:
				hist = append(hist, "ScrollToTop")
				v = v.ScrollToTop()
				st.off, st.follow = 0, false
			case 8:
				o := rng.Intn(24) - 6
				hist = append(hist, fmt.Sprintf("SetYOffset(%d)", o))
				v = v.SetYOffset(o)
				st.off = vpMax(o, 0)
				if st.off > maxOff() {
					st.off = maxOff()
				}
				st.follow = false
			case 9:
				hist = append(hist, "key up")
				key(tea.KeyMsg{Type: tea.KeyUp})
				up(1)
			case 10:
				hist = append(hist, "key down")
				key(tea.KeyMsg{Type: tea.KeyDown})
				down(1)
			case 11:
				hist = append(hist, "pgup")
				key(tea.KeyMsg{Type: tea.KeyPgUp})
				up(wh())
			case 12:
				hist = append(hist, "pgdown")
				key(tea.KeyMsg{Type: tea.KeyPgDown})
				down(wh())
			case 13:
				hist = append(hist, "ctrl+u")
				key(tea.KeyMsg{Type: tea.KeyRune, Rune: 'u', Ctrl: true})
				up(wh() / 2)
			case 14:
				hist = append(hist, "ctrl+d")
				key(tea.KeyMsg{Type: tea.KeyRune, Rune: 'd', Ctrl: true})
				down(wh() / 2)
			case 15:
				mouse = rng.Intn(4) != 0
				wheel = rng.Intn(7) - 1
				hist = append(hist, fmt.Sprintf("MouseEnabled(%v).SetWheelScrollLines(%d)", mouse, wheel))
				v = v.MouseEnabled(mouse).SetWheelScrollLines(wheel)
				wheel = vpMax(wheel, 1)
			case 16:
				b := tea.MouseButtonWheelUp
				if rng.Intn(2) == 0 {
					b = tea.MouseButtonWheelDown
				}
				hist = append(hist, fmt.Sprintf("wheel %v", b))
				v, _ = v.Update(tea.MouseMsg{Button: b})
				if mouse {
					if b == tea.MouseButtonWheelUp {
						up(wheel)
					} else {
						down(wheel)
					}
				}
			case 17:
				y := rng.Intn(12) - 2
				hist = append(hist, fmt.Sprintf("press/motion y=%d", y))
				if !drag {
					v, _ = v.Update(tea.MouseMsg{Button: tea.MouseButtonLeft, Action: tea.MouseActionPress, Y: y})
					if mouse {
						drag, dragY, dragOff = true, y, st.off
					}
				} else {
					v, _ = v.Update(tea.MouseMsg{Action: tea.MouseActionMotion, Y: y})
					if mouse {
						st.off = vpMax(dragOff-(y-dragY), 0)
						if st.off > maxOff() {
							st.off = maxOff()
						}
						st.follow = false
					}
				}
			case 18:
				hist = append(hist, "release")
				v, _ = v.Update(tea.MouseMsg{Button: tea.MouseButtonLeft, Action: tea.MouseActionRelease})
				if mouse {
					drag = false
				}
			}
			got := v.ScrollOffset()
			if got < 0 || got > maxOff() {
				fail("scroll offset %d outside [0,%d] (lines %d, height %d)", got, maxOff(), len(st.lines), wh())
				break
			}
			if got != st.off {
				fail("scroll offset %d, expected %d (lines %d, height %d)", got, st.off, len(st.lines), wh())
				break
			}
			if v.TotalLines() != len(st.lines) {
				fail("TotalLines %d, expected %d", v.TotalLines(), len(st.lines))
			}
			if v.Height() != wh() {
				fail("Height %d, expected %d", v.Height(), wh())
			}
			if v.IsAtTop() != (got == 0) || v.IsAtBottom() != (got == maxOff()) || v.CanScrollUp() != (got > 0) || v.CanScrollDown() != (got < maxOff()) {
				fail("at-top/at-bottom/can-scroll answers disagree with offset %d of %d", got, maxOff())
			}
			want := []string{}
			if st.w > 0 {
				for i := got; i < got+wh() && i < len(st.lines); i++ {
					want = append(want, vpCut(st.lines[i], st.w))
				}
			}
			vis := v.VisibleLines()
			if fmt.Sprintf("%q", vis) != fmt.Sprintf("%q", want) {
				fail("visible %q, expected %q", vis, want)
			}
			if v.View() != strings.Join(want, "\n") {
				fail("view %q, expected %q", v.View(), strings.Join(want, "\n"))
			}
			for i := range vis {
				vis[i] = "CLOBBERED"
			}
			if len(want) > 0 && strings.Contains(v.View(), "CLOBBERED") {
				fail("writing into the slice returned by VisibleLines changed the viewport")
			}
			for i, sn := range snaps {
				if sn.v.ScrollOffset() != sn.off || sn.v.View() != sn.view || sn.v.TotalLines() != sn.tot {
					fail("operation changed the earlier viewport value %d", i)
				}
			}
		}
	}
	govCases(n, "random histories of up to 14 operations on up to 12+ lines")
}
