//gov:pkg mouse
package mouse_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/mouse"
)

func gAbs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func gIn(a [4]int, x, y int) bool {
	return x >= a[0] && x < a[0]+a[2] && y >= a[1] && y < a[1]+a[3]
}

func TestGovDrag(t *testing.T) {
	rnd := govRand()
	hist := govN(6000, 200000)
	n := 0
	for h := 0; h < hist; h++ {
		m := mouse.New()
		down := false
		var sx, sy, cx, cy, btn, mods int
		var log []string
		x, y := 20, 20
		for k := 0; k < 14; k++ {
			if rnd.Intn(2) == 0 {
				x += rnd.Intn(7) - 3
			} else {
				y += rnd.Intn(5) - 2
			}
			if x < 0 {
				x = 0
			}
			if y < 0 {
				y = 0
			}
			var s string
			op := rnd.Intn(10)
			bb, mm := rnd.Intn(3), rnd.Intn(8)*4
			wasDrag := down && gAbs(sx-cx)+gAbs(sy-cy) >= 2
			switch {
			case op < 3: // press
				s = fmt.Sprintf("\x1b[<%d;%d;%dM", bb+mm, x+1, y+1)
			case op < 5: // release
				s = fmt.Sprintf("\x1b[<%d;%d;%dm", bb+mm, x+1, y+1)
			case op < 9: // motion
				c := 35
				if down && rnd.Intn(2) == 0 {
					c = 32 + btn
				}
				s = fmt.Sprintf("\x1b[<%d;%d;%dM", c+mm, x+1, y+1)
			default:
				s = fmt.Sprintf("\x1b[<%d;%d;%dM", 64+rnd.Intn(2)+mm, x+1, y+1)
			}
			log = append(log, s)
			n++
			evs, err := m.ParseSequence(s)
			ctx := fmt.Sprintf("%q", strings.Join(log, ""))
			if err != nil || len(evs) == 0 {
				govFail(t, "%s: no event, %v", ctx, err)
				break
			}
			last := evs[len(evs)-1]
			if last.Position() != mouse.NewPosition(x, y) {
				govFail(t, "%s: reported at %v, want (%d,%d)", ctx, last.Position(), x, y)
			}
			switch {
			case op < 3:
				down, sx, sy, cx, cy, btn, mods = true, x, y, x, y, bb, mm
				if len(evs) != 1 || last.Type() != mouse.EventPress {
					govFail(t, "%s: press gives %v", ctx, evs)
				}
			case op < 5:
				down = false
				if last.Type() != mouse.EventRelease || (len(evs) == 1) != wasDrag || (len(evs) == 2 && !evs[0].IsClick()) {
					govFail(t, "%s: release after drag=%v gives %v", ctx, wasDrag, evs)
				}
			case op < 9:
				if down {
					cx, cy = x, y
				}
				want := down && gAbs(sx-cx)+gAbs(sy-cy) >= 2
				if (last.Type() == mouse.EventDrag) != want || len(evs) != 1 || (!want && last.Type() != mouse.EventMotion) {
					govFail(t, "%s: motion gives %v, drag want %v", ctx, evs, want)
				} else if want && (int(last.Button()) != btn+1 || last.Modifiers() != mouse.NewModifiers(mods&4 != 0, mods&16 != 0, mods&8 != 0)) {
					govFail(t, "%s: drag of %v %v, want button %d modifiers %d", ctx, last.Button(), last.Modifiers(), btn+1, mods)
				}
			}
			if got, want := m.IsDragging(), down && gAbs(sx-cx)+gAbs(sy-cy) >= 2; got != want {
				govFail(t, "%s: IsDragging()=%v, want %v", ctx, got, want)
			}
			if rnd.Intn(30) == 0 {
				m.Reset()
				log = append(log, " RESET ")
				down = false
				if m.IsDragging() || m.IsHovering() {
					govFail(t, "%s RESET: still dragging or hovering", ctx)
				}
			}
			if govFails > 5 {
				return
			}
		}
	}
	govCases(n, "events in press/motion/release histories")
}

func TestGovHover(t *testing.T) {
	rnd := govRand()
	hist := govN(6000, 200000)
	n := 0
	for h := 0; h < hist; h++ {
		m := mouse.New()
		var areas []mouse.ComponentArea
		var boxes [][4]int
		for k := rnd.Intn(5); k >= 0; k-- {
			b := [4]int{rnd.Intn(12) - 2, rnd.Intn(12) - 2, rnd.Intn(8) - 1, rnd.Intn(8) - 1}
			boxes = append(boxes, b)
			areas = append(areas, mouse.ComponentArea{ID: string(rune('a' + rnd.Intn(4))), Area: mouse.NewBoundingBox(b[0], b[1], b[2], b[3])})
		}
		cur := ""
		var log []string
		for k := 0; k < 12; k++ {
			x, y := rnd.Intn(16)-3, rnd.Intn(16)-3
			as, bs := areas, boxes
			if rnd.Intn(6) == 0 { // areas disappear
				as, bs = areas[:len(areas)/2], boxes[:len(boxes)/2]
			}
			now := ""
			for i := range bs {
				b := bs[i]
				if gIn(b, x, y) != as[i].Area.Contains(mouse.NewPosition(x, y)) {
					govFail(t, "box %v Contains(%d,%d)=%v", b, x, y, !gIn(b, x, y))
				}
				if now == "" && gIn(b, x, y) {
					now = as[i].ID
				}
			}
			want := mouse.EventMotion
			switch {
			case now != "" && now == cur:
				want = mouse.EventHoverMove
			case now != "":
				want = mouse.EventHoverEnter
			case cur != "":
				want = mouse.EventHoverLeave
			}
			log = append(log, fmt.Sprintf("(%d,%d)/%d", x, y, len(as)))
			n++
			got := m.ProcessHover(mouse.NewPosition(x, y), as)
			cur = now
			if got != want || m.CurrentHoverComponent() != now || m.IsHovering() != (now != "") {
				govFail(t, "boxes %v, pointer %s: %v on %q, want %v on %q", boxes, strings.Join(log, " "), got, m.CurrentHoverComponent(), want, now)
				break
			}
		}
	}
	govCases(n, "hover updates")
}

func TestGovMenu(t *testing.T) {
	m := mouse.New()
	n := 0
	for sw := 0; sw < 9; sw++ {
		for sh := 0; sh < 6; sh++ {
			for mw := -1; mw < 11; mw++ {
				for mh := -1; mh < 8; mh++ {
					for x := 0; x <= sw; x++ {
						for y := 0; y <= sh; y++ {
							n++
							p := m.CalculateMenuPosition(mouse.NewPosition(x, y), mw, mh, sw, sh)
							w, hh := mw, mh
							if w < 0 {
								w = 0
							}
							if hh < 0 {
								hh = 0
							}
							if w > sw || hh > sh {
								if p.X() != 0 || p.Y() != 0 {
									govFail(t, "menu %dx%d on %dx%d does not fit and is put at %v", mw, mh, sw, sh, p)
								}
								continue
							}
							wx, wy := x, y
							if wx > sw-w {
								wx = sw - w
							}
							if wy > sh-hh {
								wy = sh - hh
							}
							if p.X() != wx || p.Y() != wy {
								govFail(t, "menu %dx%d for pointer (%d,%d) on %dx%d is put at %v, want (%d,%d)", mw, mh, x, y, sw, sh, p, wx, wy)
							}
						}
					}
				}
			}
		}
	}
	govCases(n, "menu positions")
}
