//gov:pkg render/internal/application
package application_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/render/internal/application"
	"github.com/phoenix-tui/phoenix/render/internal/domain/model"
	"github.com/phoenix-tui/phoenix/render/internal/domain/value"
)

// gTerm: a terminal that knows cursor moves, SGR and clear screen
type gTerm struct {
	ch   [16][32]rune
	st   [16][32]string
	x, y int
	cur  string
	bad  string
}

func newTerm() *gTerm {
	t := &gTerm{}
	t.clear()
	return t
}
func (t *gTerm) clear() {
	for y := range t.ch {
		for x := range t.ch[y] {
			t.ch[y][x], t.st[y][x] = ' ', t.cur
		}
	}
}
func (t *gTerm) feed(s string) {
	for len(s) > 0 {
		if strings.HasPrefix(s, "\x1b[") {
			i := 2
			for i < len(s) && (s[i] < '@' || s[i] > '~') {
				i++
			}
			if i == len(s) {
				t.bad = "cut escape sequence"
				return
			}
			arg := s[2:i]
			switch s[i] {
			case 'H':
				p := strings.Split(arg, ";")
				t.x, t.y = 0, 0
				if len(p) == 2 {
					t.y, _ = strconv.Atoi(p[0])
					t.x, _ = strconv.Atoi(p[1])
					t.x--
					t.y--
				}
			case 'J':
				if arg != "2" {
					t.bad = "clear " + arg
				}
				t.clear()
			case 'm':
				if arg == "0" || arg == "" {
					t.cur = ""
				} else if t.cur == "" {
					t.cur = arg
				} else {
					t.cur += ";" + arg
				}
			case 'l', 'h':
			default:
				t.bad = "unknown sequence " + strconv.Quote(s[:i+1])
			}
			s = s[i+1:]
			continue
		}
		r := []rune(s)[0]
		s = s[len(string(r)):]
		if t.y < 0 || t.y >= len(t.ch) || t.x < 0 || t.x >= len(t.ch[0]) {
			t.bad = fmt.Sprintf("write outside the screen at (%d,%d)", t.x, t.y)
			return
		}
		t.ch[t.y][t.x], t.st[t.y][t.x] = r, t.cur
		t.x++
	}
}
func sgrOf(s value.Style) string {
	return strings.TrimSuffix(strings.TrimPrefix(s.ToANSI(), "\x1b["), "m")
}
func (t *gTerm) diff(b *model.Buffer) string {
	if t.bad != "" {
		return t.bad
	}
	for y := range t.ch {
		for x := range t.ch[y] {
			ch, st := ' ', ""
			if x < b.Width() && y < b.Height() {
				c := b.Get(value.NewPosition(x, y))
				ch, st = c.Char(), sgrOf(c.Style())
			}
			if t.ch[y][x] != ch || t.st[y][x] != st {
				return fmt.Sprintf("screen (%d,%d) shows %q style %q, the frame has %q style %q", x, y, t.ch[y][x], t.st[y][x], ch, st)
			}
		}
	}
	return ""
}
func gSty(r *rand.Rand) value.Style {
	s := value.NewStyle()
	switch r.Intn(6) {
	case 0:
		s = s.WithFg(value.NewColor(uint8(r.Intn(2)), 0, 9))
	case 1:
		s = s.WithBg(value.NewColor(uint8(r.Intn(2)), 3, 0))
	case 2:
		s = s.WithBold(true)
	case 3:
		s = s.WithUnderline(true).WithFg(value.NewColor(1, 2, 3))
	case 4:
		s = s.WithReverse(true).WithStrike(r.Intn(2) == 0)
	}
	return s
}

// frames of single-width characters: after every Render the terminal shows exactly the frame
func TestGovScreen(t *testing.T) {
	n := govN(1500, 25000)
	r := govRand()
	for it := 0; it < n && govFails < 5; it++ {
		w, h := 1+r.Intn(8), 1+r.Intn(5)
		var out bytes.Buffer
		rd := application.NewRenderer(w, h, &out)
		if r.Intn(2) == 0 {
			rd = application.NewRendererWithOptions(w, h, &out, 1<<uint(r.Intn(13)))
		}
		tm := newTerm()
		frame := model.NewBuffer(w, h)
		var hist []string
		hist = append(hist, fmt.Sprintf("New(%d,%d)", w, h))
		fail := func(f string, a ...any) { govFail(t, "%v: %s", hist, fmt.Sprintf(f, a...)) }
		for s := 0; s < 14 && govFails < 5; s++ {
			switch k := r.Intn(12); {
			case k == 0:
				hist = append(hist, "Clear")
				_ = rd.Clear()
				frame = model.NewBuffer(rd.Width(), rd.Height())
				tm.feed(out.String())
				out.Reset()
				if d := tm.diff(frame); d != "" {
					fail("%s", d)
				}
				continue
			case k == 1:
				w, h = 1+r.Intn(8), 1+r.Intn(5)
				hist = append(hist, fmt.Sprintf("Resize(%d,%d)", w, h))
				_ = rd.Resize(w, h)
				tm.feed(out.String())
				out.Reset()
				if d := tm.diff(model.NewBuffer(w, h)); d != "" {
					fail("%s", d)
				}
				if rd.Width() != w || rd.Height() != h {
					fail("size is %dx%d", rd.Width(), rd.Height())
				}
				frame = model.NewBuffer(w, h)
			case k == 2: // a frame of another size
				w, h = 1+r.Intn(8), 1+r.Intn(5)
				hist = append(hist, fmt.Sprintf("frame size (%d,%d)", w, h))
				frame = frame.Resize(w, h)
			case k == 3: // a pooled buffer
				hist = append(hist, "pooled buffer")
				p := rd.GetBuffer()
				if p.Width() != rd.Width() || p.Height() != rd.Height() || !p.IsEmpty() {
					fail("GetBuffer gives a %dx%d buffer, empty %v; the renderer is %dx%d", p.Width(), p.Height(), p.IsEmpty(), rd.Width(), rd.Height())
				}
				w, h = p.Width(), p.Height()
				p.Fill('p', gSty(r))
				frame = p.Clone()
				rd.PutBuffer(p)
			case k == 4:
				hist = append(hist, "Fill")
				frame.Fill(rune('A'+r.Intn(3)), gSty(r))
			case k == 5:
				hist = append(hist, "same frame")
			case k == 6:
				hist = append(hist, "blank frame")
				frame.Clear()
			default:
				for i := 0; i < 1+r.Intn(5); i++ {
					x, y := r.Intn(w), r.Intn(h)
					ch := []rune("ab é")[r.Intn(4)]
					hist = append(hist, fmt.Sprintf("Set(%d,%d,%q)", x, y, ch))
					frame.Set(value.NewPosition(x, y), model.NewCell(ch, gSty(r)))
				}
			}
			before := tm.diff(frame) == ""
			sz := rd.Width() == frame.Width() && rd.Height() == frame.Height()
			keep := frame.Clone()
			if err := rd.Render(frame); err != nil {
				fail("Render: %v", err)
			}
			hist = append(hist, "Render")
			if before && sz && out.Len() > 0 {
				fail("Render writes %q for a frame already on the screen", out.String())
			}
			tm.feed(out.String())
			out.Reset()
			if d := tm.diff(frame); d != "" {
				fail("%s", d)
				break
			}
			if rd.Width() != frame.Width() || rd.Height() != frame.Height() {
				fail("after a frame of %dx%d the renderer is %dx%d", frame.Width(), frame.Height(), rd.Width(), rd.Height())
			}
			for y := 0; y < keep.Height(); y++ {
				for x := 0; x < keep.Width(); x++ {
					if p := value.NewPosition(x, y); !keep.Get(p).Equals(frame.Get(p)) {
						fail("Render changed cell (%d,%d) of the caller's frame", x, y)
					}
				}
			}
		}
	}
	govCases(n, "renderer histories on a terminal emulator")
}
