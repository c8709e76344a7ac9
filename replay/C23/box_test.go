//gov:pkg style
package style_test

import (
	"fmt"
	"regexp"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
)

var g23sgr = regexp.MustCompile("\x1b\\[[0-9;]*m")

func g23sp(n int) string { return strings.Repeat(" ", n) }

// g23align: one line put into w columns (nil when it does not fit)
func g23align(l string, w int, h value.HorizontalAlignment) (string, bool) {
	n := w - core.StringWidth(l)
	switch {
	case n < 0:
		return "", false
	case h == value.AlignCenter:
		return g23sp((n+1)/2) + l + g23sp(n/2), true
	case h == value.AlignRight:
		return g23sp(n) + l, true
	}
	return l + g23sp(n), true
}
func g23inset(ls []string, t, r, b, l int) []string {
	for i := range ls {
		ls[i] = g23sp(l) + ls[i] + g23sp(r)
	}
	e := g23sp(core.StringWidth(ls[0]))
	var out []string
	for i := 0; i < t; i++ {
		out = append(out, e)
	}
	out = append(out, ls...)
	for i := 0; i < b; i++ {
		out = append(out, e)
	}
	return out
}
func g23widest(ls []string) int {
	m := 0
	for _, l := range ls {
		m = max(m, core.StringWidth(l))
	}
	return m
}

func TestGovBox(t *testing.T) {
	r := govRand()
	words := []string{"", "a", "ab", "hello", "x y", "日本", "é", "ñandú", "日", "wörld", "abcdefghij", "日本語テキスト", " ", "…"}
	n := govN(4000, 60000)
	for k := 0; k < n; k++ {
		var ls []string
		for i := 0; i <= r.Intn(4); i++ {
			ls = append(ls, words[r.Intn(len(words))]+words[r.Intn(len(words))])
		}
		content := strings.Join(ls, "\n")
		s := style.New()
		desc := fmt.Sprintf("content %q", content)
		want := append([]string{}, ls...)
		cutAt := -1
		if r.Intn(2) == 0 {
			al := value.NewAlignment(value.HorizontalAlignment(r.Intn(3)), value.VerticalAlignment(r.Intn(3)))
			s = s.Align(al)
			w, h := 0, 0
			if r.Intn(3) > 0 {
				w = 1 + r.Intn(24)
				s = s.Width(w)
			}
			if r.Intn(3) > 0 {
				h = 1 + r.Intn(6)
				s = s.Height(h)
			}
			desc += fmt.Sprintf(" align %d/%d into %dx%d", al.Horizontal(), al.Vertical(), w, h)
			if w > 0 {
				for i, l := range want {
					if x, ok := g23align(l, w, al.Horizontal()); ok {
						want[i] = x
					} else {
						cutAt = w
					}
				}
			}
			if cutAt >= 0 {
				// a cut line: a prefix of the text that fits, filled with spaces
				out := style.Render(style.New().Align(al).Width(w), content)
				for i, g := range strings.Split(out, "\n") {
					if core.StringWidth(g) != w {
						govFail(t, "%s: line %q is %d columns wide, not %d", desc, g, core.StringWidth(g), w)
					}
					if core.StringWidth(ls[i]) > w {
						p := strings.TrimRight(g, " ")
						if !strings.HasPrefix(ls[i], p) || w-core.StringWidth(p) > 1 && !strings.Contains(ls[i], " ") {
							govFail(t, "%s: %q was cut to %q", desc, ls[i], g)
						}
					}
				}
				continue
			}
			if h > 0 {
				e := g23sp(g23widest(want))
				var top, bot []string
				if m := h - len(want); m < 0 {
					want = want[:h]
				} else {
					a := 0
					switch al.Vertical() {
					case value.AlignMiddle:
						a = (m + 1) / 2
					case value.AlignBottom:
						a = m
					}
					for i := 0; i < m; i++ {
						if i < a {
							top = append(top, e)
						} else {
							bot = append(bot, e)
						}
					}
				}
				want = append(append(top, want...), bot...)
			}
		}
		// the empty content stays empty under padding and margin
		if r.Intn(2) == 0 {
			a, b, c, d := r.Intn(3), r.Intn(3), r.Intn(3), r.Intn(3)
			s = s.Padding(style.NewPadding(a, b, c, d))
			desc += fmt.Sprintf(" padding %d %d %d %d", a, b, c, d)
			if len(want) > 1 || want[0] != "" {
				want = g23inset(want, a, b, c, d)
			}
		}
		if r.Intn(2) == 0 {
			bs := []style.Border{style.NormalBorder, style.ASCIIBorder, style.DoubleBorder, style.RoundedBorder, style.ThickBorder}
			b := bs[r.Intn(len(bs))]
			s = s.Border(b)
			sd := [4]bool{true, true, true, true}
			if r.Intn(2) == 0 {
				for i := range sd {
					sd[i] = r.Intn(2) == 0
				}
				s = s.BorderTop(sd[0]).BorderRight(sd[1]).BorderBottom(sd[2]).BorderLeft(sd[3])
			}
			if r.Intn(3) == 0 {
				s = s.BorderColor(style.RGB(200, 100, uint8(r.Intn(256)))).TerminalCapability(value.TerminalCapability(r.Intn(4)))
			}
			desc += fmt.Sprintf(" border %v of %s", sd, b.TopLeft)
			p := func(c bool, x string) string {
				if c {
					return x
				}
				return ""
			}
			if sd != [4]bool{} {
				w := g23widest(want)
				for i, l := range want {
					want[i] = p(sd[3], b.Left) + l + g23sp(w-core.StringWidth(l)) + p(sd[1], b.Right)
				}
				if sd[0] {
					want = append([]string{p(sd[3], b.TopLeft) + strings.Repeat(b.Top, w) + p(sd[1], b.TopRight)}, want...)
				}
				if sd[2] {
					want = append(want, p(sd[3], b.BottomLeft)+strings.Repeat(b.Bottom, w)+p(sd[1], b.BottomRight))
				}
			}
		}
		if r.Intn(2) == 0 {
			a, b, c, d := r.Intn(3), r.Intn(3), r.Intn(3), r.Intn(3)
			s = s.Margin(style.NewMargin(a, b, c, d))
			desc += fmt.Sprintf(" margin %d %d %d %d", a, b, c, d)
			if len(want) > 1 || want[0] != "" {
				want = g23inset(want, a, b, c, d)
			}
		}
		if r.Intn(3) == 0 {
			s = s.Foreground(style.RGB(1, 2, 3)).Bold(r.Intn(2) == 0)
		}
		var out string
		if e := govTry(func() { out = style.Render(s, content) }); e != nil {
			govFail(t, "%s: panic %v", desc, e)
			continue
		}
		got := g23sgr.ReplaceAllString(out, "")
		if w := strings.Join(want, "\n"); got != w {
			govFail(t, "%s:\n got %q\nwant %q", desc, got, w)
		}
		if !utf8.ValidString(out) {
			govFail(t, "%s: invalid UTF-8 in %q", desc, out)
		}
	}
	govCases(n, "styles and contents rendered")
}
