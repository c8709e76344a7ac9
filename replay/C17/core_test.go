//gov:pkg core
package core_test

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/core/internal/domain/model"
	"github.com/phoenix-tui/phoenix/core/internal/domain/value"
)

func gMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

var gInts = []int{-1 << 62, -100000, -81, -24, -3, -2, -1, 0, 1, 2, 3, 5, 24, 79, 80, 81, 255, 256, 257, 1000, 65535, 65536, 1 << 31, 1 << 40}

func TestGovGeometry(t *testing.T) {
	n := 0
	for _, a := range gInts {
		for _, b := range gInts {
			n++
			s := value.NewSize(a, b)
			if s != (value.Size{Width: gMax(a, 1), Height: gMax(b, 1)}) {
				govFail(t, "value.NewSize(%d,%d)=%+v", a, b, s)
			}
			if c := core.NewSize(a, b); c.Width != gMax(a, 1) || c.Height != gMax(b, 1) {
				govFail(t, "core.NewSize(%d,%d)=%+v", a, b, c)
			}
			raw := value.Size{Width: a, Height: b}
			if raw.IsEmpty() != (a == 0 || b == 0) || raw.Area() != a*b {
				govFail(t, "Size%+v IsEmpty %v Area %d", raw, raw.IsEmpty(), raw.Area())
			}
			p := value.NewPosition(a, b)
			if p != (value.Position{Row: gMax(a, 0), Col: gMax(b, 0)}) {
				govFail(t, "value.NewPosition(%d,%d)=%+v", a, b, p)
			}
			if c := core.NewPosition(a, b); c.Row != gMax(a, 0) || c.Col != gMax(b, 0) {
				govFail(t, "core.NewPosition(%d,%d)=%+v", a, b, c)
			}
			rp := value.Position{Row: a, Col: b}
			if rp.IsZero() != (a == 0 && b == 0) {
				govFail(t, "Position%+v.IsZero()=%v", rp, rp.IsZero())
			}
			for _, c := range gInts {
				for _, d := range gInts {
					q := value.Size{Width: c, Height: d}
					if raw.Equal(q) != (a == c && b == d) {
						govFail(t, "Size%+v.Equal(%+v)=%v", raw, q, raw.Equal(q))
					}
					if rp.Equal(value.Position{Row: c, Col: d}) != (a == c && b == d) {
						govFail(t, "Position%+v.Equal(%d,%d) wrong", rp, c, d)
					}
					if q.Contains(rp) != (a >= 0 && a < d && b >= 0 && b < c) {
						govFail(t, "Size%+v.Contains(%+v)=%v", q, rp, q.Contains(rp))
					}
					if m := p.Add(c, d); m != (value.Position{Row: gMax(p.Row+c, 0), Col: gMax(p.Col+d, 0)}) || p != value.NewPosition(a, b) {
						govFail(t, "Position%+v.Add(%d,%d)=%+v", p, c, d, m)
					}
					if m := core.NewPosition(a, b).Add(c, d); m.Row != gMax(p.Row+c, 0) || m.Col != gMax(p.Col+d, 0) {
						govFail(t, "core.NewPosition(%d,%d).Add(%d,%d)=%+v", a, b, c, d, m)
					}
				}
			}
		}
	}
	govCases(n, "size/position pairs")
}

func TestGovCell(t *testing.T) {
	n := 0
	texts := []string{"", " ", "a", "  ", "é", "世", "👍", "e\u0301", "ab", "\x00", "\xff", "👨‍👩‍👧"}
	for _, s := range texts {
		for _, w := range gInts {
			n++
			c := value.NewCell(s, w)
			if c.Content() != s || c.Width() != gMax(w, 0) {
				govFail(t, "NewCell(%q,%d): %q %d", s, w, c.Content(), c.Width())
			}
			if c.IsEmpty() != (s == "" || s == " " || w <= 0) {
				govFail(t, "NewCell(%q,%d).IsEmpty()=%v", s, w, c.IsEmpty())
			}
			if p := core.NewCell(s, w); p.Content != s || p.Width != gMax(w, 0) {
				govFail(t, "core.NewCell(%q,%d)=%+v", s, w, p)
			}
			for _, s2 := range texts {
				for _, w2 := range []int{-1, 0, 1, 2, 3, 256, 257} {
					if c.Equal(value.NewCell(s2, w2)) != (s == s2 && gMax(w, 0) == gMax(w2, 0)) {
						govFail(t, "NewCell(%q,%d).Equal(NewCell(%q,%d)) wrong", s, w, s2, w2)
					}
				}
			}
		}
		if a := core.NewCellAuto(s); a.Content != s || a.Width != core.StringWidth(s) || a.Width < 0 {
			govFail(t, "NewCellAuto(%q)=%+v", s, a)
		}
	}
	govCases(n, "cells")
}

func TestGovTerminal(t *testing.T) {
	n := 0
	bits := []bool{false, true}
	var all []*value.Capabilities
	type cp struct {
		a    bool
		d    int
		m, l, c bool
	}
	var want []cp
	for _, a := range bits {
		for _, d := range []int{-1, 0, 1, 2, 8, 9, 16, 255, 256, 257, 16777215, 16777216, 16777217} {
			for _, m := range bits {
				for _, l := range bits {
					for _, cu := range bits {
						n++
						w := cp{a, d, a && m, a && l, a && cu}
						if d != 8 && d != 256 && d != 16777216 {
							w.d = 0
						}
						c := value.NewCapabilities(a, value.ColorDepth(d), m, l, cu)
						got := cp{c.SupportsANSI(), int(c.ColorDepth()), c.SupportsMouse(), c.SupportsAltScreen(), c.SupportsCursorControl()}
						if got != w {
							govFail(t, "NewCapabilities(%v,%d,%v,%v,%v)=%+v want %+v", a, d, m, l, cu, got, w)
						}
						if c.SupportsColor() != (w.d > 0) || c.SupportsTrueColor() != (w.d == 16777216) || c.Supports256Color() != (w.d >= 256) || c.IsDumbTerminal() != (!a && w.d == 0) {
							govFail(t, "capabilities %+v: derived flags wrong", w)
						}
						pc := core.NewCapabilities(a, core.ColorDepth(d), m, l, cu)
						pg := cp{pc.SupportsANSI(), int(pc.ColorDepth()), pc.SupportsMouse(), pc.SupportsAltScreen(), pc.SupportsCursorControl()}
						if pg != w || pc.SupportsColor() != (w.d > 0) || pc.SupportsTrueColor() != (w.d == 16777216) {
							govFail(t, "core.NewCapabilities(%v,%d,%v,%v,%v)=%+v want %+v", a, d, m, l, cu, pg, w)
						}
						all, want = append(all, c), append(want, w)
					}
				}
			}
		}
	}
	for i := range all {
		for j := range all {
			if all[i].Equal(all[j]) != (want[i] == want[j]) {
				govFail(t, "Equal(%+v,%+v)=%v", want[i], want[j], all[i].Equal(all[j]))
			}
		}
		if all[i].Equal(nil) {
			govFail(t, "Equal(nil) is true")
		}
	}
	r := govRand()
	if rm, err := model.NewRawMode(nil); rm != nil || err == nil {
		govFail(t, "NewRawMode(nil) accepted")
	}
	if rm, err := core.NewRawMode(nil); rm != nil || err == nil {
		govFail(t, "core.NewRawMode(nil) accepted")
	}
	for h := 0; h < govN(2000, 30000); h++ {
		n++
		c := all[r.Intn(len(all))]
		term := model.NewTerminal(c)
		size := value.Size{Width: 80, Height: 24}
		var raw *model.RawMode
		type snap struct {
			t    *model.Terminal
			size value.Size
			raw  *model.RawMode
		}
		var olds []snap
		log := "NewTerminal"
		for k := 0; k < 6; k++ {
			olds = append(olds, snap{term, size, raw})
			switch r.Intn(4) {
			case 0, 1:
				size = value.NewSize(gInts[r.Intn(len(gInts))], gInts[r.Intn(len(gInts))])
				term = term.WithSize(size)
				log += fmt.Sprintf(".WithSize(%v)", size)
			case 2:
				m, err := model.NewRawMode(h)
				if err != nil || m.IsEnabled() || m.OriginalState() != h {
					govFail(t, "NewRawMode: %v %v", m, err)
					continue
				}
				e := m.Enable()
				if !e.IsEnabled() || m.IsEnabled() || e.OriginalState() != h || e.Disable().IsEnabled() || !e.IsEnabled() || e.Disable().OriginalState() != h {
					govFail(t, "RawMode Enable/Disable changed the wrong thing")
				}
				raw = m
				if r.Intn(2) == 0 {
					raw = e
				}
				term = term.WithRawMode(raw)
				log += fmt.Sprintf(".WithRawMode(%v)", raw.IsEnabled())
			case 3:
				raw = nil
				term = term.WithoutRawMode()
				log += ".WithoutRawMode()"
			}
			olds2 := append(olds, snap{term, size, raw})
			for _, o := range olds2 {
				if o.t.Size() != o.size || o.t.RawMode() != o.raw || o.t.IsRawMode() != (o.raw != nil && o.raw.IsEnabled()) || o.t.Capabilities() != c ||
					o.t.SupportsANSI() != c.SupportsANSI() || o.t.SupportsColor() != c.SupportsColor() || o.t.ColorDepth() != c.ColorDepth() {
					govFail(t, "%s: a terminal has size %v raw %v, want %v %v", log, o.t.Size(), o.t.RawMode(), o.size, o.raw)
				}
			}
		}
	}
	// the public wrapper
	pc := core.NewCapabilities(true, core.ColorDepth256, true, true, true)
	for _, a := range gInts {
		for _, b := range gInts {
			base := core.NewTerminalWithCapabilities(pc)
			x := base.WithSize(core.Size{Width: a, Height: b})
			if s := x.Size(); s.Width != gMax(a, 1) || s.Height != gMax(b, 1) {
				govFail(t, "core WithSize(%d,%d): %+v", a, b, s)
			}
			if s := base.Size(); s.Width != 80 || s.Height != 24 {
				govFail(t, "core WithSize changed the original: %+v", s)
			}
			rm, _ := core.NewRawMode("s")
			y := x.WithRawMode(rm)
			if y.Size() != x.Size() || y.IsRawModeEnabled() || x.IsRawModeEnabled() || !reflect.DeepEqual(y.Capabilities(), pc) || x.WithRawMode(nil) != x {
				govFail(t, "core WithRawMode changed something else")
			}
		}
	}
	nt := core.NewTerminalWithCapabilities(nil)
	if nt.Capabilities().SupportsANSI() || nt.Capabilities().SupportsColor() || model.NewTerminal(nil).SupportsANSI() {
		govFail(t, "terminal without capabilities claims ANSI")
	}
	govCases(n, "terminals and capabilities")
}
