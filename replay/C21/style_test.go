//gov:pkg style
package style_test

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
)

// g21 is what the readers of a style must report
type g21 struct {
	fg, bg, bc   *style.Color
	border       *style.Border
	sides        [4]bool
	pad, mar     *[4]int
	size         [6]*int
	hasSize      bool
	align        *[2]int
	bold, it, ul bool
	st           bool
	tc           int
}

func g21view(s style.Style) string {
	var b strings.Builder
	opt := func(n string, v any, ok bool) {
		if ok {
			fmt.Fprintf(&b, "%s=%v ", n, v)
		}
	}
	c, ok := s.GetForeground()
	opt("fg", c, ok)
	c, ok = s.GetBackground()
	opt("bg", c, ok)
	c, ok = s.GetBorderColor()
	opt("bc", c, ok)
	bd, ok := s.GetBorder()
	opt("border", bd, ok)
	fmt.Fprintf(&b, "%v %v %v %v ", s.GetBorderTop(), s.GetBorderBottom(), s.GetBorderLeft(), s.GetBorderRight())
	p, ok := s.GetPadding()
	opt("pad", [4]int{p.Top(), p.Right(), p.Bottom(), p.Left()}, ok)
	m, ok := s.GetMargin()
	opt("mar", [4]int{m.Top(), m.Right(), m.Bottom(), m.Left()}, ok)
	z, ok := s.GetSize()
	opt("size", "", ok)
	for i, f := range []func() (int, bool){z.Width, z.Height, z.MinWidth, z.MaxWidth, z.MinHeight, z.MaxHeight} {
		v, ok := f()
		opt(fmt.Sprint("s", i), v, ok)
	}
	a, ok := s.GetAlignment()
	opt("align", [2]int{int(a.Horizontal()), int(a.Vertical())}, ok)
	fmt.Fprintf(&b, "%v %v %v %v %d", s.GetBold(), s.GetItalic(), s.GetUnderline(), s.GetStrikethrough(), s.GetTerminalCapability())
	return b.String()
}

func (w g21) String() string {
	var b strings.Builder
	if w.fg != nil {
		fmt.Fprintf(&b, "fg=%v ", *w.fg)
	}
	if w.bg != nil {
		fmt.Fprintf(&b, "bg=%v ", *w.bg)
	}
	if w.bc != nil {
		fmt.Fprintf(&b, "bc=%v ", *w.bc)
	}
	if w.border != nil {
		fmt.Fprintf(&b, "border=%v ", *w.border)
	}
	has := w.border != nil
	fmt.Fprintf(&b, "%v %v %v %v ", w.sides[0] && has, w.sides[1] && has, w.sides[2] && has, w.sides[3] && has)
	if w.pad != nil {
		fmt.Fprintf(&b, "pad=%v ", *w.pad)
	}
	if w.mar != nil {
		fmt.Fprintf(&b, "mar=%v ", *w.mar)
	}
	if w.hasSize {
		fmt.Fprintf(&b, "size= ")
	}
	for i, v := range w.size {
		if v != nil {
			fmt.Fprintf(&b, "s%d=%v ", i, *v)
		}
	}
	if w.align != nil {
		fmt.Fprintf(&b, "align=%v ", *w.align)
	}
	fmt.Fprintf(&b, "%v %v %v %v %d", w.bold, w.it, w.ul, w.st, w.tc)
	return b.String()
}

func g21pos(x int) int {
	if x < 0 {
		return 0
	}
	return x
}

// g21step applies one random setter to the style and to what is expected of it
func g21step(r *rand.Rand, s style.Style, w g21) (style.Style, g21, string) {
	n := r.Intn(14) - 4
	if r.Intn(20) == 0 {
		n = []int{1 << 40, -1 << 62, 255, 256}[r.Intn(4)]
	}
	on := r.Intn(2) == 0
	c := style.RGB(uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)))
	if r.Intn(4) == 0 {
		c = style.RGB(0, 0, 0)
	}
	pick := func(q *[4]int, set func(v *[4]int)) *[4]int {
		v := [4]int{}
		if q != nil {
			v = *q
		}
		set(&v)
		return &v
	}
	v := g21pos(n)
	sz := func(i int) { w.size[i] = &v; w.hasSize = true }
	k := r.Intn(42)
	switch k {
	case 0:
		s, w.fg = s.Foreground(c), &c
	case 1:
		s, w.bg = s.Background(c), &c
	case 2:
		s, w.bc = s.BorderColor(c), &c
	case 3, 4:
		b := []style.Border{style.NormalBorder, style.ThickBorder, {}, style.NewBorder("1", "2", "3", "4", "5", "6", "7", "8")}[r.Intn(4)]
		s, w.border = s.Border(b), &b
		if w.sides == [4]bool{} {
			w.sides = [4]bool{true, true, true, true}
		}
	case 5:
		s, w.sides[0] = s.BorderTop(on), on
	case 6:
		s, w.sides[1] = s.BorderBottom(on), on
	case 7:
		s, w.sides[2] = s.BorderLeft(on), on
	case 8:
		s, w.sides[3] = s.BorderRight(on), on
	case 9:
		s, w.pad = s.Padding(style.NewPadding(n, 1, 2, n)), &[4]int{v, 1, 2, v}
	case 10:
		s, w.pad = s.PaddingTop(n), pick(w.pad, func(q *[4]int) { q[0] = v })
	case 11:
		s, w.pad = s.PaddingRight(n), pick(w.pad, func(q *[4]int) { q[1] = v })
	case 12:
		s, w.pad = s.PaddingBottom(n), pick(w.pad, func(q *[4]int) { q[2] = v })
	case 13:
		s, w.pad = s.PaddingLeft(n), pick(w.pad, func(q *[4]int) { q[3] = v })
	case 14:
		s, w.pad = s.PaddingAll(n), &[4]int{v, v, v, v}
	case 15:
		s, w.pad = s.PaddingHorizontal(n), pick(w.pad, func(q *[4]int) { q[1], q[3] = v, v })
	case 16:
		s, w.pad = s.PaddingVertical(n), pick(w.pad, func(q *[4]int) { q[0], q[2] = v, v })
	case 17:
		s, w.mar = s.Margin(style.NewMargin(n, 1, 2, n)), &[4]int{v, 1, 2, v}
	case 18:
		s, w.mar = s.MarginTop(n), pick(w.mar, func(q *[4]int) { q[0] = v })
	case 19:
		s, w.mar = s.MarginRight(n), pick(w.mar, func(q *[4]int) { q[1] = v })
	case 20:
		s, w.mar = s.MarginBottom(n), pick(w.mar, func(q *[4]int) { q[2] = v })
	case 21:
		s, w.mar = s.MarginLeft(n), pick(w.mar, func(q *[4]int) { q[3] = v })
	case 22:
		s, w.mar = s.MarginAll(n), &[4]int{v, v, v, v}
	case 23:
		s, w.mar = s.MarginHorizontal(n), pick(w.mar, func(q *[4]int) { q[1], q[3] = v, v })
	case 24:
		s, w.mar = s.MarginVertical(n), pick(w.mar, func(q *[4]int) { q[0], q[2] = v, v })
	case 25:
		s = s.Width(n)
		sz(0)
	case 26:
		s = s.Height(n)
		sz(1)
	case 27:
		s = s.MinWidth(n)
		sz(2)
	case 28:
		s = s.MaxWidth(n)
		sz(3)
	case 29:
		s = s.MinHeight(n)
		sz(4)
	case 30:
		s = s.MaxHeight(n)
		sz(5)
	case 31:
		h, vv := r.Intn(3), r.Intn(3)
		s = s.Align(style.NewAlignment(style.HorizontalAlignment(h), style.VerticalAlignment(vv)))
		w.align = &[2]int{h, vv}
	case 32, 33:
		h := r.Intn(3)
		s = s.AlignHorizontal(value.HorizontalAlignment(h))
		q := [2]int{}
		if w.align != nil {
			q = *w.align
		}
		q[0] = h
		w.align = &q
	case 34, 35:
		h := r.Intn(3)
		s = s.AlignVertical(value.VerticalAlignment(h))
		q := [2]int{}
		if w.align != nil {
			q = *w.align
		}
		q[1] = h
		w.align = &q
	case 36:
		s, w.bold = s.Bold(on), on
	case 37:
		s, w.it = s.Italic(on), on
	case 38:
		s, w.ul = s.Underline(on), on
	case 39:
		s, w.st = s.Strikethrough(on), on
	default:
		w.tc = r.Intn(4)
		s = s.TerminalCapability(value.TerminalCapability(w.tc))
	}
	return s, w, fmt.Sprintf("setter#%d(n=%d,on=%v,c=%v)", k, n, on, c)
}

// branching histories: every style ever made keeps reading as it did when made
func TestGovStyleHistories(t *testing.T) {
	r := govRand()
	n := govN(1500, 60000)
	for i := 0; i < n; i++ {
		ss, ws, hs := []style.Style{style.New()}, []g21{{tc: 3}}, []string{"New()"}
		for j := 0; j < 25; j++ {
			k := len(ss) - 1
			if r.Intn(3) == 0 {
				k = r.Intn(len(ss))
			}
			s, w, h := g21step(r, ss[k], ws[k])
			ss, ws, hs = append(ss, s), append(ws, w), append(hs, fmt.Sprintf("%s on #%d", h, k))
		}
		for j := range ss {
			if got, want := g21view(ss[j]), ws[j].String(); got != want {
				govFail(t, "style #%d of %s: reads %q, want %q", j, strings.Join(hs, "; "), got, want)
				return
			}
			if err := ss[j].Validate(); (err != nil) != ((ws[j].sides != [4]bool{}) && ws[j].border == nil) {
				govFail(t, "style #%d of %s: Validate=%v", j, strings.Join(hs, "; "), err)
				return
			}
		}
	}
	govCases(n*26, "styles in branching setter histories")
}

func TestGovSizeValues(t *testing.T) {
	vals := []int{-3, -1, 0, 1, 2, 5, 80, 1 << 40}
	type set struct {
		n string
		f func(style.Size, int) style.Size
		g func(style.Size) (int, bool)
	}
	sets := []set{
		{"Width", style.Size.SetWidth, style.Size.Width}, {"Height", style.Size.SetHeight, style.Size.Height},
		{"MinWidth", style.Size.SetMinWidth, style.Size.MinWidth}, {"MaxWidth", style.Size.SetMaxWidth, style.Size.MaxWidth},
		{"MinHeight", style.Size.SetMinHeight, style.Size.MinHeight}, {"MaxHeight", style.Size.SetMaxHeight, style.Size.MaxHeight},
	}
	r := govRand()
	n := govN(3000, 100000)
	for i := 0; i < n; i++ {
		s := style.NewSize()
		var want [6]int
		for j := range want {
			want[j] = -1
		}
		h := ""
		for j := 0; j < 8; j++ {
			k, v := r.Intn(6), vals[r.Intn(len(vals))]
			prev, pw := s, want
			s = sets[k].f(s, v)
			want[k] = g21pos(v)
			h += fmt.Sprintf("Set%s(%d) ", sets[k].n, v)
			for q := range sets {
				for _, c := range []struct {
					s style.Size
					w [6]int
				}{{prev, pw}, {s, want}} {
					got, ok := sets[q].g(c.s)
					if ok != (c.w[q] >= 0) || ok && got != c.w[q] {
						govFail(t, "%s: %s reads %d,%v want %d", h, sets[q].n, got, ok, c.w[q])
						return
					}
				}
			}
		}
		x := vals[r.Intn(len(vals))]
		fit := func(x, lo, hi int) int {
			if lo >= 0 && x < lo {
				x = lo
			}
			if hi >= 0 && x > hi {
				x = hi
			}
			return x
		}
		if g, w := s.ValidateWidth(x), fit(x, want[2], want[3]); g != w {
			govFail(t, "%s: ValidateWidth(%d)=%d want %d", h, x, g, w)
		}
		if g, w := s.ValidateHeight(x), fit(x, want[4], want[5]); g != w {
			govFail(t, "%s: ValidateHeight(%d)=%d want %d", h, x, g, w)
		}
	}
	govCases(n, "size histories")
	for _, a := range vals {
		for _, b := range vals {
			p, m := value.VerticalHorizontal(a, b), value.VerticalHorizontalMargin(a, b)
			pa, pb := g21pos(a), g21pos(b)
			if p.Top() != pa || p.Bottom() != pa || p.Left() != pb || p.Right() != pb || p.Horizontal() != 2*pb || p.Vertical() != 2*pa {
				govFail(t, "VerticalHorizontal(%d,%d)=%v", a, b, p)
			}
			if m.Top() != pa || m.Bottom() != pa || m.Left() != pb || m.Right() != pb || m.Horizontal() != 2*pb || m.Vertical() != 2*pa {
				govFail(t, "VerticalHorizontalMargin(%d,%d)=%v", a, b, m)
			}
			u, um := value.UniformPadding(a), value.UniformMargin(a)
			if u != style.NewPadding(a, a, a, a) || um != style.NewMargin(a, a, a, a) || u.Top() != pa || um.Left() != pa {
				govFail(t, "Uniform(%d)=%v,%v", a, u, um)
			}
		}
	}
}

func g21theme(r *rand.Rand, name string) *style.Theme {
	set := func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch f.Interface().(type) {
			case int:
				f.SetInt(int64(r.Intn(5) - 2))
			case style.Color:
				c := style.RGB(uint8(r.Intn(2)), uint8(r.Intn(2)), uint8(r.Intn(2)*r.Intn(256)))
				f.Set(reflect.ValueOf(c))
			case style.Border:
				b := style.Border{}
				if r.Intn(3) > 0 {
					bv := reflect.ValueOf(&b).Elem()
					bv.Field(r.Intn(bv.NumField())).SetString(string(rune('a' + r.Intn(5))))
				}
				f.Set(reflect.ValueOf(b))
			}
		}
	}
	var c style.ColorPalette
	var b style.BorderStyles
	var s style.SpacingScale
	var y style.Typography
	set(reflect.ValueOf(&c).Elem())
	set(reflect.ValueOf(&b).Elem())
	set(reflect.ValueOf(&s).Elem())
	set(reflect.ValueOf(&y).Elem())
	return style.NewTheme(name, c, b, s, y)
}

func g21merge(a, b any) any {
	av, bv := reflect.ValueOf(a), reflect.ValueOf(b)
	out := reflect.New(av.Type()).Elem()
	out.Set(av)
	for i := 0; i < av.NumField(); i++ {
		set := false
		switch v := bv.Field(i).Interface().(type) {
		case int:
			set = v > 0
		case style.Color:
			set = v != style.RGB(0, 0, 0)
		case style.Border:
			set = v != (style.Border{})
		}
		if set {
			out.Field(i).Set(bv.Field(i))
		}
	}
	return out.Interface()
}

func TestGovThemes(t *testing.T) {
	r := govRand()
	n := govN(4000, 200000)
	for i := 0; i < n; i++ {
		a, b := g21theme(r, "a"), g21theme(r, "b")
		a0, b0 := *a, *b
		m := a.Merge(b)
		if m.Name() != "b" || m.Colors() != g21merge(a.Colors(), b.Colors()) || m.Borders() != g21merge(a.Borders(), b.Borders()) ||
			m.Spacing() != g21merge(a.Spacing(), b.Spacing()) || m.Typography() != g21merge(a.Typography(), b.Typography()) {
			govFail(t, "merge of %+v with %+v gives %+v", a0, b0, *m)
			return
		}
		ws := []*style.Theme{a.WithColors(b.Colors()), a.WithBorders(b.Borders()), a.WithSpacing(b.Spacing()), a.WithTypography(b.Typography()), a.WithName("z")}
		for k, w := range ws {
			e := [5]bool{w.Colors() == a.Colors(), w.Borders() == a.Borders(), w.Spacing() == a.Spacing(), w.Typography() == a.Typography(), w.Name() == a.Name()}
			g := [5]bool{w.Colors() == b.Colors(), w.Borders() == b.Borders(), w.Spacing() == b.Spacing(), w.Typography() == b.Typography(), w.Name() == "z"}
			for q := range e {
				if q == k && !g[q] || q != k && !e[q] {
					govFail(t, "With#%d on %+v: %+v", k, a0, *w)
					return
				}
			}
		}
		if *a != a0 || *b != b0 {
			govFail(t, "merging or deriving changed an operand: %+v %+v", a0, b0)
			return
		}
		tm := style.NewThemeManager(a)
		tm.MergeTheme(b)
		if *tm.Current() != *m || *a != a0 {
			govFail(t, "ThemeManager.MergeTheme: %+v over %+v gives %+v", b0, a0, *tm.Current())
			return
		}
		if tm.SetTheme(nil); *tm.Current() != *m {
			govFail(t, "SetTheme(nil) changed the theme")
		}
		if p := tm.SetTheme(b); *p != *m || tm.Current() != b {
			govFail(t, "SetTheme: previous %v current %v", p, tm.Current())
		}
	}
	govCases(n, "theme pairs merged")
	names := map[string]string{"default": "Default", "dark": "Dark", "light": "Light", "highcontrast": "HighContrast"}
	for lo, nm := range names {
		for mask := 0; mask < 1<<len(lo); mask++ {
			q := []byte(lo)
			for i := range q {
				if mask>>i&1 == 1 {
					q[i] -= 32
				}
			}
			tm := style.NewThemeManager(nil)
			if th := style.ThemeByName(string(q)); th == nil || th.Name() != nm || !tm.SetPreset(string(q)) || tm.Current().Name() != nm {
				govFail(t, "preset %q is not %s", q, nm)
				return
			}
		}
		for _, bad := range []string{lo + " ", " " + lo, lo[1:], lo + lo, ""} {
			tm := style.NewThemeManager(nil)
			c := tm.Current()
			if style.ThemeByName(bad) != nil || tm.SetPreset(bad) || tm.Current() != c {
				govFail(t, "preset %q exists", bad)
			}
		}
	}
	for i, th := range style.AllThemes() {
		tm := style.NewThemeManager(nil)
		nm := tm.AvailablePresets()[i]
		if th.Name() != nm || !tm.SetPreset(nm) || *tm.Current() != *th {
			govFail(t, "preset %d is %s, listed %s", i, th.Name(), nm)
		}
		if tm.Reset(); tm.Current().Name() != "Default" {
			govFail(t, "Reset gives %s", tm.Current().Name())
		}
	}
}
