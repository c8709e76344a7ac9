//gov:pkg mouse
package mouse_test

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/phoenix-tui/phoenix/mouse"
	"github.com/phoenix-tui/phoenix/mouse/internal/application"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/model"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/service"
)

func gAbs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

type gClick struct {
	b    mouse.Button
	x, y int
	at   time.Duration
}

// gCount is the reference counter
type gCount struct {
	last *gClick
	n    int
	to   time.Duration
	tol  int
}

func (g *gCount) click(c gClick) int {
	if g.last != nil && c.at-g.last.at <= g.to && gAbs(c.x-g.last.x)+gAbs(c.y-g.last.y) <= g.tol && c.b == g.last.b && g.n < 3 {
		g.n++
	} else {
		g.n = 1
	}
	g.last = &c
	return g.n
}

func TestGovClicks(t *testing.T) {
	rnd := govRand()
	base := time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC)
	hist := govN(4000, 100000)
	n := 0
	for h := 0; h < hist; h++ {
		to := []time.Duration{0, -1, 1, 500 * time.Millisecond, time.Second}[rnd.Intn(5)]
		tol := []int{-1, 0, 1, 2, 5}[rnd.Intn(5)]
		ref := gCount{to: to, tol: tol}
		if to <= 0 {
			ref.to = 500 * time.Millisecond
		}
		if tol < 0 {
			ref.tol = 1
		}
		det := service.NewClickDetector(to, tol)
		proc := application.NewEventProcessorWithConfig(to, tol, 1000, 3)
		at := time.Duration(0)
		x, y, b := 10, 10, mouse.ButtonLeft
		var log []string
		for k := 0; k < 12; k++ {
			switch rnd.Intn(6) {
			case 0:
				x += rnd.Intn(5) - 2
			case 1:
				y += rnd.Intn(5) - 2
			case 2:
				b = mouse.Button(1 + rnd.Intn(3))
			}
			d := ref.to
			at += []time.Duration{0, 1, d / 2, d - 1, d, d + 1, 3 * d}[rnd.Intn(7)]
			c := gClick{b, x, y, at}
			log = append(log, fmt.Sprintf("%s@(%d,%d)+%v", b, x, y, at))
			ctx := fmt.Sprintf("timeout %v tolerance %d: %s", to, tol, strings.Join(log, " "))
			want := ref.click(c)
			mods := mouse.NewModifiers(rnd.Intn(2) == 0, false, rnd.Intn(2) == 0)
			ev := model.NewMouseEventWithTimestamp(mouse.EventRelease, b, mouse.NewPosition(x, y), mods, base.Add(at))
			n++
			got := det.DetectClick(ev)
			kind := []mouse.EventType{mouse.EventClick, mouse.EventDoubleClick, mouse.EventTripleClick}[want-1]
			if got == nil || got.Type() != kind || det.ClickCount() != want || got.Button() != b || got.Position() != ev.Position() || got.Modifiers() != mods || !got.Timestamp().Equal(ev.Timestamp()) {
				govFail(t, "%s: click %v count %d, want count %d", ctx, got, det.ClickCount(), want)
				break
			}
			proc.ProcessEvent(model.NewMouseEventWithTimestamp(mouse.EventPress, b, mouse.NewPosition(x, y), mods, base.Add(at)))
			if rnd.Intn(3) == 0 {
				proc.ProcessEvent(model.NewMouseEventWithTimestamp(mouse.EventMotion, mouse.ButtonNone, mouse.NewPosition(x+1, y), mods, base.Add(at)))
			}
			evs := proc.ProcessEvent(ev)
			if len(evs) != 2 || evs[0].Type() != kind || evs[1].Type() != mouse.EventRelease || proc.ClickCount() != want {
				govFail(t, "%s: processor gives %v, count %d, want count %d", ctx, evs, proc.ClickCount(), want)
				break
			}
			for _, typ := range []mouse.EventType{mouse.EventPress, mouse.EventMotion, mouse.EventScroll} {
				if det.DetectClick(ev.WithType(typ)) != nil || det.ClickCount() != want {
					govFail(t, "%s: a %v event counts as a click", ctx, typ)
				}
			}
			if rnd.Intn(20) == 0 {
				det.Reset()
				proc.Reset()
				ref.last, ref.n = nil, 0
				log = append(log, "Reset")
				if det.ClickCount() != 0 || proc.ClickCount() != 0 {
					govFail(t, "%s Reset: count %d/%d", ctx, det.ClickCount(), proc.ClickCount())
				}
			}
		}
	}
	govCases(n, "clicks in random histories")
}
