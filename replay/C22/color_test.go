//gov:pkg style
package style_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/style/internal/domain/service"
	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
	"github.com/phoenix-tui/phoenix/style/internal/infrastructure/ansi"
)

var g22cube = [6]int{0, 95, 135, 175, 215, 255}
var g22pal = [16][3]int{{0, 0, 0}, {128, 0, 0}, {0, 128, 0}, {128, 128, 0}, {0, 0, 128}, {128, 0, 128}, {0, 128, 128}, {192, 192, 192},
	{128, 128, 128}, {255, 0, 0}, {0, 255, 0}, {255, 255, 0}, {0, 0, 255}, {255, 0, 255}, {0, 255, 255}, {255, 255, 255}}

func g22abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// g22ok256 says whether code is a nearest entry of the part of the palette used for the colour
func g22ok256(r, g, b, code int) bool {
	a := (r + g + b) / 3
	if g22abs(r-a) <= 10 && g22abs(g-a) <= 10 && g22abs(b-a) <= 10 {
		switch {
		case a < 8:
			return code == 16
		case a > 238:
			return code == 231
		}
		if code < 232 || code > 255 {
			return false
		}
		for i := 0; i < 24; i++ {
			if g22abs(a-8-10*i) < g22abs(a-8-10*(code-232)) {
				return false
			}
		}
		return true
	}
	if code < 16 || code > 231 {
		return false
	}
	k := code - 16
	for _, l := range g22cube {
		if g22abs(r-l) < g22abs(r-g22cube[k/36]) || g22abs(g-l) < g22abs(g-g22cube[k/6%6]) || g22abs(b-l) < g22abs(b-g22cube[k%6]) {
			return false
		}
	}
	return true
}
func g22d(r, g, b, i int) int {
	p := g22pal[i]
	return (r-p[0])*(r-p[0]) + (g-p[1])*(g-p[1]) + (b-p[2])*(b-p[2])
}
func g22ok16(r, g, b, code int) bool {
	if code < 0 || code > 15 {
		return false
	}
	for i := range g22pal {
		if g22d(r, g, b, i) < g22d(r, g, b, code) {
			return false
		}
	}
	return true
}

// g22num reads the number between the prefix and m, -1 if the text is not of that form
func g22num(s, pre string) int {
	if !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, "m") {
		return -1
	}
	n := 0
	d := s[len(pre) : len(s)-1]
	if d == "" || len(d) > 3 || len(d) > 1 && d[0] == '0' {
		return -1
	}
	for _, c := range d {
		if c < '0' || c > '9' {
			return -1
		}
		n = n*10 + int(c-'0')
	}
	return n
}

// g22check says what is wrong with the sequence emitted for the colour, "" if nothing
func g22check(out string, r, g, b int, tc value.TerminalCapability, bg bool) string {
	sel, lo, hi := "38", 30, 90
	if bg {
		sel, lo, hi = "48", 40, 100
	}
	switch tc {
	case value.TrueColor:
		if out != fmt.Sprintf("\x1b[%s;2;%d;%d;%dm", sel, r, g, b) {
			return "not the exact colour"
		}
	case value.ANSI256:
		if c := g22num(out, "\x1b["+sel+";5;"); c < 0 || !g22ok256(r, g, b, c) {
			return "not a nearest 256-colour code"
		}
	case value.ANSI16:
		c := g22num(out, "\x1b[")
		switch {
		case c >= lo && c < lo+8:
			c -= lo
		case c >= hi && c < hi+8:
			c -= hi - 8
		default:
			return "not a 16-colour code"
		}
		if !g22ok16(r, g, b, c) {
			return "not a nearest 16-colour code"
		}
	default:
		if out != "" {
			return "output without colour support"
		}
	}
	return ""
}

func TestGovColours(t *testing.T) {
	ad := service.NewColorAdapter()
	step := 0
	try := func(r, g, b int) bool {
		c := style.RGB(uint8(r), uint8(g), uint8(b))
		for tc := value.TerminalCapability(-1); tc <= 4; tc++ {
			if e := g22check(ad.ToANSIForeground(c, tc), r, g, b, tc, false); e != "" {
				govFail(t, "foreground of (%d,%d,%d) at capability %d: %q: %s", r, g, b, tc, ad.ToANSIForeground(c, tc), e)
				return false
			}
			if e := g22check(ad.ToANSIBackground(c, tc), r, g, b, tc, true); e != "" {
				govFail(t, "background of (%d,%d,%d) at capability %d: %q: %s", r, g, b, tc, ad.ToANSIBackground(c, tc), e)
				return false
			}
		}
		step++
		return true
	}
	// a lattice with every cube level, ramp shade and 16-colour level and the values around their midpoints
	set := map[int]bool{}
	for _, x := range []int{0, 1, 3, 4, 7, 8, 47, 48, 63, 64, 65, 94, 95, 96, 114, 115, 116, 127, 128, 129, 135, 155, 160, 175, 192, 195, 215, 223, 224, 235, 238, 239, 247, 248, 254, 255} {
		set[x] = true
	}
	for r := range set {
		for g := range set {
			for b := range set {
				if !try(r, g, b) {
					return
				}
			}
		}
	}
	for v := 0; v < 256; v++ { // greys and near greys
		for _, d := range [][3]int{{0, 0, 0}, {1, 0, 0}, {-1, 2, 0}, {10, 0, -10}, {11, 0, -11}, {5, 5, -10}, {15, 0, 0}, {16, 0, 0}} {
			r, g, b := v+d[0], v+d[1], v+d[2]
			if r < 0 || g < 0 || b < 0 || r > 255 || g > 255 || b > 255 {
				continue
			}
			if !try(r, g, b) {
				return
			}
		}
	}
	rnd := govRand()
	for i := govN(20000, 3000000); i > 0; i-- {
		if !try(rnd.Intn(256), rnd.Intn(256), rnd.Intn(256)) {
			return
		}
	}
	govCases(step, "colours converted at every capability")
}

func TestGovBorderColours(t *testing.T) {
	r := govRand()
	n := govN(3000, 200000)
	for i := 0; i < n; i++ {
		v := [3]int{r.Intn(256), r.Intn(256), r.Intn(256)}
		if r.Intn(3) == 0 {
			v[1], v[2] = v[0], v[0]
		}
		tc := value.TerminalCapability(r.Intn(4))
		c := style.RGB(uint8(v[0]), uint8(v[1]), uint8(v[2]))
		out := style.Render(style.New().Border(style.NormalBorder).BorderColor(c).TerminalCapability(tc), "x")
		k := strings.Index(out, style.NormalBorder.TopLeft)
		if k < 0 {
			govFail(t, "border of colour %v at %v: no corner in %q", v, tc, out)
			return
		}
		if e := g22check(out[:k], v[0], v[1], v[2], tc, false); e != "" {
			govFail(t, "border of colour %v at capability %v starts %q: %s", v, tc, out[:k], e)
			return
		}
		// text of that colour
		out = style.Render(style.New().Foreground(c).TerminalCapability(tc), "x")
		k = strings.Index(out, "x")
		if e := g22check(out[:k], v[0], v[1], v[2], tc, false); e != "" {
			govFail(t, "text of colour %v at capability %v starts %q: %s", v, tc, out[:k], e)
			return
		}
		out = style.Render(style.New().Background(c).TerminalCapability(tc), "x")
		k = strings.Index(out, "x")
		if e := g22check(out[:k], v[0], v[1], v[2], tc, true); e != "" {
			govFail(t, "text on colour %v at capability %v starts %q: %s", v, tc, out[:k], e)
			return
		}
	}
	govCases(n, "coloured borders and texts")
}

func TestGovPalette(t *testing.T) {
	gen := ansi.NewANSICodeGenerator()
	for i := 0; i < 256; i++ {
		var w [3]int
		switch {
		case i < 16:
			w = g22pal[i]
		case i < 232:
			k := i - 16
			w = [3]int{g22cube[k/36], g22cube[k/6%6], g22cube[k%6]}
		default:
			w = [3]int{8 + 10*(i-232), 8 + 10*(i-232), 8 + 10*(i-232)}
		}
		r, g, b := style.Color256(uint8(i)).RGB()
		if [3]int{int(r), int(g), int(b)} != w {
			govFail(t, "palette entry %d is %d,%d,%d want %v", i, r, g, b, w)
		}
		if g, w := gen.Foreground256(uint8(i)), fmt.Sprintf("\x1b[38;5;%dm", i); g != w {
			govFail(t, "Foreground256(%d)=%q", i, g)
		}
		if g, w := gen.Background256(uint8(i)), fmt.Sprintf("\x1b[48;5;%dm", i); g != w {
			govFail(t, "Background256(%d)=%q", i, g)
		}
		if i < 16 {
			o := i
			if i >= 8 {
				o += 52
			}
			if g, w := gen.Foreground16(uint8(i)), fmt.Sprintf("\x1b[%dm", 30+o); g != w {
				govFail(t, "Foreground16(%d)=%q", i, g)
			}
			if g, w := gen.Background16(uint8(i)), fmt.Sprintf("\x1b[%dm", 40+o); g != w {
				govFail(t, "Background16(%d)=%q", i, g)
			}
		}
		for _, v := range []int{0, 9, 16, 99, 255} {
			if g, w := gen.Foreground(uint8(i), uint8(v), uint8(255-v)), fmt.Sprintf("\x1b[38;2;%d;%d;%dm", i, v, 255-v); g != w {
				govFail(t, "Foreground=%q want %q", g, w)
			}
			if g, w := gen.Background(uint8(i), uint8(v), uint8(255-v)), fmt.Sprintf("\x1b[48;2;%d;%d;%dm", i, v, 255-v); g != w {
				govFail(t, "Background=%q want %q", g, w)
			}
			c := style.RGB(uint8(v), uint8(i), uint8(255-i))
			if h, err := style.Hex(c.Hex()); err != nil || h != c || c.Hex() != fmt.Sprintf("#%02X%02X%02X", v, i, 255-i) {
				govFail(t, "Hex of (%d,%d,%d): %q reads back %v %v", v, i, 255-i, c.Hex(), h, err)
			}
		}
	}
	govCases(256, "palette entries and generator codes")
}
