//gov:pkg mouse
package mouse_test

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/mouse"
	"github.com/phoenix-tui/phoenix/mouse/internal/infrastructure/parser"
)

var gBtn = map[int]mouse.Button{0: mouse.ButtonLeft, 1: mouse.ButtonMiddle, 2: mouse.ButtonRight, 64: mouse.ButtonWheelUp, 65: mouse.ButtonWheelDown}

type gEv struct {
	typ  mouse.EventType
	b    mouse.Button
	m    mouse.Modifiers
	x, y int
}

func gDecode(code int, kind byte, x, y int) gEv { // kind: 'M','m' for SGR, 0 for the protocols without a kind
	e := gEv{x: x, y: y}
	e.b = gBtn[code&0x63]
	e.m = mouse.NewModifiers(code&4 != 0, code&16 != 0, code&8 != 0)
	switch {
	case code&0x63 == 64 || code&0x63 == 65:
		e.typ = mouse.EventScroll
	case kind != 0 && code&0x60 == 0x20:
		e.typ = mouse.EventMotion
	case kind == 'm':
		e.typ = mouse.EventRelease
	default:
		e.typ = mouse.EventPress
	}
	return e
}

// gWant is an independent decoder; ok is false for a malformed report
func gWant(s string) (gEv, bool) {
	s = strings.TrimPrefix(strings.TrimPrefix(s, "\x1b"), "[")
	fields := func(s string) ([3]int, bool) {
		var r [3]int
		ps := strings.Split(s, ";")
		if len(ps) != 3 {
			return r, false
		}
		for i, p := range ps {
			n, err := strconv.Atoi(p)
			if err != nil {
				return r, false
			}
			r[i] = n
		}
		return r, true
	}
	switch {
	case strings.HasPrefix(s, "<"):
		b := s
		k := byte('m')
		if strings.HasSuffix(b, "M") {
			k = 'M'
			b = b[:len(b)-1]
		}
		b = strings.TrimSuffix(b, "m")
		f, ok := fields(strings.TrimPrefix(b, "<"))
		return gDecode(f[0], k, f[1]-1, f[2]-1), ok
	case strings.HasPrefix(s, "M"):
		if len(s) != 4 {
			return gEv{}, false
		}
		return gDecode(int(s[1])-32, 0, int(s[2])-33, int(s[3])-33), true
	case strings.Contains(s, ";") && strings.HasSuffix(s, "M"):
		f, ok := fields(s[:len(s)-1])
		return gDecode(f[0], 0, f[1]-1, f[2]-1), ok
	}
	return gEv{}, false
}

func gCheck(t *testing.T, s string) {
	want, ok := gWant(s)
	govStep(t, func() {
		evs, err := mouse.New().ParseSequence(s)
		if (err == nil) != ok {
			govFail(t, "ParseSequence(%q): err=%v, want ok=%v", s, err, ok)
			return
		}
		if !ok {
			return
		}
		e := evs[len(evs)-1]
		got := gEv{e.Type(), e.Button(), e.Modifiers(), e.Position().X(), e.Position().Y()}
		if got != want {
			govFail(t, "ParseSequence(%q) = %+v, want %+v", s, got, want)
		}
	}, func() string { return fmt.Sprintf("ParseSequence(%q)", s) })
}

func TestGovDecode(t *testing.T) {
	n := 0
	coords := []int{1, 2, 3, 10, 80, 94, 95, 96, 127, 128, 200, 222, 223, 224, 255, 256, 300, 1000, 65536}
	for code := 0; code < 128; code++ {
		for _, c := range coords {
			for _, d := range []int{1, 7, 223, 500} {
				for _, k := range []string{"M", "m"} {
					gCheck(t, fmt.Sprintf("\x1b[<%d;%d;%d%s", code, c, d, k))
				}
				gCheck(t, fmt.Sprintf("\x1b[%d;%d;%dM", code, c, d))
				n += 3
			}
		}
	}
	for code := 32; code < 256; code++ {
		for x := 33; x < 256; x += 3 {
			for _, y := range []int{33, 34, 100, 127, 128, 200, 254, 255} {
				gCheck(t, "\x1b[M"+string([]byte{byte(code), byte(x), byte(y)}))
				n++
			}
		}
	}
	govCases(n, "well-formed mouse reports")
}

func TestGovMalformed(t *testing.T) {
	rnd := govRand()
	n := govN(60000, 2000000)
	alpha := []string{"\x1b", "[", "<", "M", "m", ";", ";", ";", "0", "1", "9", "32", "64", "-", "+", " ", "x", "\x00", "\xff", "é", "99999999999999999999"}
	for i := 0; i < n; i++ {
		s := ""
		if rnd.Intn(2) == 0 {
			s = []string{"\x1b[<", "\x1b[M", "\x1b[", "<", "M", "["}[rnd.Intn(6)]
		}
		for k := rnd.Intn(9); k > 0; k-- {
			s += alpha[rnd.Intn(len(alpha))]
		}
		if rnd.Intn(2) == 0 {
			s += []string{"M", "m"}[rnd.Intn(2)]
		}
		gCheck(t, s)
	}
	govCases(n, "arbitrary byte strings")
}

func TestGovRoundTrip(t *testing.T) {
	sgr, ur, x10 := parser.NewSGRParser(), parser.NewURxvtParser(), parser.NewX10Parser()
	n := 0
	for b := mouse.ButtonNone; b <= mouse.ButtonWheelDown; b++ {
		for m := 0; m < 8; m++ {
			mods := mouse.NewModifiers(m&1 != 0, m&2 != 0, m&4 != 0)
			for x := 0; x < 400; x += 7 {
				for _, y := range []int{0, 1, 94, 95, 100, 222, 223, 5000} {
					for _, press := range []bool{true, false} {
						typ := mouse.EventPress
						switch {
						case b >= mouse.ButtonWheelUp:
							typ = mouse.EventScroll
						case b == mouse.ButtonNone:
							typ = mouse.EventMotion
						case !press:
							typ = mouse.EventRelease
						}
						ev := mouse.NewMouseEvent(typ, b, mouse.NewPosition(x, y), mods)
						want := gEv{typ, b, mods, x, y}
						back := func(what, s string, want gEv) {
							n++
							evs, err := mouse.New().ParseSequence(s)
							if err != nil || len(evs) == 0 {
								govFail(t, "%s: %+v is written as %q, which does not decode: %v", what, want, s, err)
								return
							}
							e := evs[len(evs)-1]
							if got := (gEv{e.Type(), e.Button(), e.Modifiers(), e.Position().X(), e.Position().Y()}); got != want {
								govFail(t, "%s: %+v is written as %q, which decodes to %+v", what, want, s, got)
							}
						}
						back("SGR", sgr.FormatSequence(ev, press), want)
						if press { // the older protocols carry no press/release kind
							w := want
							if b < mouse.ButtonWheelUp {
								w.typ = mouse.EventPress
							}
							back("urxvt", ur.FormatSequence(ev), w)
							if x <= 222 && y <= 222 {
								back("X10", x10.FormatSequence(ev), w)
							}
						}
					}
				}
			}
		}
	}
	govCases(n, "events written and read back")
}
