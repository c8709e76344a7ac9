//gov:pkg tea/internal/infrastructure/input
package input_test

import (
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/phoenix-tui/phoenix/tea/internal/domain/model"
	"github.com/phoenix-tui/phoenix/tea/internal/infrastructure/ansi"
	"github.com/phoenix-tui/phoenix/tea/internal/infrastructure/input"
)

// gLong: the escape sequences a terminal sends and the key each stands for
var gLong = map[string]model.KeyType{
	"\x1b[A": model.KeyUp, "\x1b[B": model.KeyDown, "\x1b[C": model.KeyRight, "\x1b[D": model.KeyLeft,
	"\x1b[H": model.KeyHome, "\x1b[F": model.KeyEnd, "\x1b[1~": model.KeyHome, "\x1b[4~": model.KeyEnd,
	"\x1b[2~": model.KeyInsert, "\x1b[3~": model.KeyDelete, "\x1b[5~": model.KeyPgUp, "\x1b[6~": model.KeyPgDown,
	"\x1bOP": model.KeyF1, "\x1bOQ": model.KeyF2, "\x1bOR": model.KeyF3, "\x1bOS": model.KeyF4,
	"\x1b[15~": model.KeyF5, "\x1b[17~": model.KeyF6, "\x1b[18~": model.KeyF7, "\x1b[19~": model.KeyF8,
	"\x1b[20~": model.KeyF9, "\x1b[21~": model.KeyF10, "\x1b[23~": model.KeyF11, "\x1b[24~": model.KeyF12,
}

// gWant: the event a byte sequence stands for
func gWant(d string) (model.KeyMsg, bool) {
	if len(d) == 1 {
		b := d[0]
		switch {
		case b == 13 || b == 10:
			return model.KeyMsg{Type: model.KeyEnter}, true
		case b == 127 || b == 8:
			return model.KeyMsg{Type: model.KeyBackspace}, true
		case b == 9:
			return model.KeyMsg{Type: model.KeyTab}, true
		case b == 27:
			return model.KeyMsg{Type: model.KeyEsc}, true
		case b == 32:
			return model.KeyMsg{Type: model.KeySpace}, true
		case b >= 1 && b <= 26:
			return model.KeyMsg{Type: model.KeyRune, Rune: rune('a' + b - 1), Ctrl: true}, true
		case b >= 33 && b <= 126:
			return model.KeyMsg{Type: model.KeyRune, Rune: rune(b)}, true
		}
		return model.KeyMsg{}, false
	}
	if k, ok := gLong[d]; ok {
		return model.KeyMsg{Type: k}, true
	}
	return model.KeyMsg{}, false
}

func gParse(t *testing.T, p *ansi.Parser, d string) {
	var got model.KeyMsg
	var ok bool
	if e := govTry(func() { got, ok = p.ParseKey([]byte(d)) }); e != nil {
		govFail(t, "ParseKey(%q) panics: %v", d, e)
		return
	}
	w, wok := gWant(d)
	if ok != wok || (ok && got != w) {
		govFail(t, "ParseKey(%q) = %+v, %v; want %+v, %v", d, got, ok, w, wok)
	}
}

func TestGovParse(t *testing.T) {
	p := ansi.NewParser()
	gParse(t, p, "")
	n := 0
	for a := 0; a < 256; a++ {
		gParse(t, p, string([]byte{byte(a)}))
		for b := 0; b < 256; b++ {
			gParse(t, p, string([]byte{byte(a), byte(b)}))
			n++
		}
	}
	// every three-byte sequence starting with ESC, every byte changed of the longer ones
	for b := 0; b < 256; b++ {
		for c := 0; c < 256; c++ {
			gParse(t, p, string([]byte{27, byte(b), byte(c)}))
			n++
		}
	}
	for b := 0; b < 256; b++ {
		for c := 0; c < 256; c++ {
			gParse(t, p, string([]byte{27, '[', byte(b), byte(c)}))
			gParse(t, p, string([]byte{27, '[', byte(b), byte(c), '~'}))
			n += 2
		}
	}
	r := govRand()
	for s := range gLong {
		for i := 0; i < len(s); i++ {
			for b := 0; b < 256; b++ {
				gParse(t, p, s[:i]+string([]byte{byte(b)})+s[i+1:])
				gParse(t, p, s[:i]+string([]byte{byte(b)})+s[i:])
				n += 2
			}
			gParse(t, p, s[:i]+s[i+1:])
		}
	}
	for k := 0; k < govN(20000, 400000); k++ {
		b := make([]byte, r.Intn(8))
		al := "\x1b[O~;0123456789ABCDHFPQRSZa\x00\xff"
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
		if len(b) > 0 && r.Intn(2) == 0 {
			b[0] = 27
		}
		gParse(t, p, string(b))
		n++
	}
	govCases(n, "byte sequences decoded")
}

func TestGovNames(t *testing.T) {
	names := map[model.KeyType]string{model.KeyEnter: "enter", model.KeyBackspace: "backspace", model.KeyTab: "tab", model.KeyEsc: "esc", model.KeySpace: "space",
		model.KeyUp: "↑", model.KeyDown: "↓", model.KeyLeft: "←", model.KeyRight: "→", model.KeyHome: "home", model.KeyEnd: "end", model.KeyPgUp: "pgup", model.KeyPgDown: "pgdown",
		model.KeyInsert: "insert", model.KeyDelete: "delete", model.KeyF1: "F1", model.KeyF2: "F2", model.KeyF3: "F3", model.KeyF4: "F4", model.KeyF5: "F5", model.KeyF6: "F6",
		model.KeyF7: "F7", model.KeyF8: "F8", model.KeyF9: "F9", model.KeyF10: "F10", model.KeyF11: "F11", model.KeyF12: "F12", model.KeyCtrlC: "ctrl+c"}
	n := 0
	for ty := model.KeyType(-2); ty < 40; ty++ {
		for m := 0; m < 8; m++ {
			for _, r := range []rune{0, 'a', 'Z', ' ', '+', 'é', '世', '😀'} {
				k := model.KeyMsg{Type: ty, Rune: r, Alt: m&1 != 0, Ctrl: m&2 != 0, Shift: m&4 != 0}
				want := names[ty]
				if ty == model.KeyRune {
					want = string(r)
				} else if want == "" {
					want = "unknown"
				}
				if ty != model.KeyCtrlC {
					if k.Shift && ty != model.KeyRune {
						want = "shift+" + want
					}
					if k.Ctrl {
						want = "ctrl+" + want
					}
					if k.Alt {
						want = "alt+" + want
					}
				}
				if got := k.String(); got != want {
					govFail(t, "%#v.String() = %q, want %q", k, got, want)
				}
				n++
			}
		}
	}
	for b := model.MouseButton(-1); b < 8; b++ {
		for a := model.MouseAction(-1); a < 5; a++ {
			x, y := int(b)*7-3, int(a)*11
			bn := map[model.MouseButton]string{0: "mouse", 1: "left", 2: "middle", 3: "right", 4: "wheel up", 5: "wheel down"}[b]
			an := map[model.MouseAction]string{0: "press", 1: "release", 2: "motion"}[a]
			if bn == "" {
				bn = "unknown"
			}
			if an == "" {
				an = "unknown"
			}
			at := fmt.Sprintf(" at (%d, %d)", x, y)
			want := bn + " " + an + at
			if a == model.MouseActionMotion && b == model.MouseButtonNone {
				want = "mouse motion" + at
			} else if b == model.MouseButtonWheelUp || b == model.MouseButtonWheelDown {
				want = bn + at
			}
			m := model.MouseMsg{X: x, Y: y, Button: b, Action: a}
			if m.String() != want {
				govFail(t, "%#v.String() = %q, want %q", m, m.String(), want)
			}
			n++
		}
	}
	govCases(n, "event names")
}

// gRead feeds one chunk of input through the reader and returns every event it yields
func gRead(t *testing.T, in string) (out []model.KeyMsg, err error) {
	rd := input.NewReader(strings.NewReader(in))
	done := make(chan bool)
	go func() {
		defer close(done)
		for {
			m, e := rd.Read()
			if e != nil {
				err = e
				return
			}
			if k, ok := m.(model.KeyMsg); ok {
				out = append(out, k)
			} else if m != nil {
				out = append(out, model.KeyMsg{Type: -99})
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		return nil, fmt.Errorf("no end of input after 20 s")
	}
	rd.Cancel()
	rd.WaitForShutdown()
	return out, err
}

// The stream of a chunk of input yields exactly the events of its sequences, in order
func TestGovStream(t *testing.T) {
	r := govRand()
	toks := []string{}
	for s := range gLong {
		toks = append(toks, s)
	}
	single := []string{"a", "Z", "0", "~", "[", "O", " ", "\r", "\n", "\t", "\x7f", "\x08", "\x01", "\x03", "\x1a", "é", "ж", "世", "😀"}
	check := func(ts []string) {
		in := strings.Join(ts, "")
		var want []model.KeyMsg
		for _, s := range ts {
			if w, ok := gWant(s); ok {
				want = append(want, w)
			} else if rs := []rune(s); len(rs) == 1 && rs[0] >= 128 {
				want = append(want, model.KeyMsg{Type: model.KeyRune, Rune: rs[0]})
			}
		}
		got, err := gRead(t, in)
		if err != io.EOF {
			govFail(t, "reading %q ends with %v", in, err)
			return
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			govFail(t, "input %q is read as %v, want %v", in, got, want)
		}
	}
	n := 0
	for _, s := range toks {
		check([]string{s})
		check([]string{"x", s, "y"})
		check([]string{s, s})
		n += 3
	}
	for _, s := range single {
		check([]string{s, "q"})
		n++
	}
	// sequences that stand for no key give no event, however long
	other := []string{"\x1b[<0;5;7M", "\x1b[<64;100;50M", "\x1b[<0;12345;67890m", "\x1b[1;5A", "\x1b[200~", "\x1b[?1;2c", "\x1b[Z", "\x1bOM", "\x1b[24;80R"}
	for _, s := range other {
		check([]string{s})
		check([]string{"x", s, "y"})
		n += 2
	}
	for c := byte('@'); c <= '~'; c++ { // every final byte: no event, and the keys after it are read
		for _, p := range []string{"", "5;9", "?25", "<1;2;3"} {
			s := "\x1b[" + p + string(c)
			if p == "" && (c == '[' || c == 'M') || gLong[s] != gLong["-"] {
				continue
			}
			check([]string{s, "x", "y"})
			n++
		}
	}
	check([]string{"\x1b[[A", "x"})
	check([]string{"\x1b"})
	check([]string{"a", "\x1b"})
	check([]string{"\x00", "a", "\x1c", "b"})
	for k := 0; k < govN(200, 4000); k++ {
		var ts []string
		l := 0
		for len(ts) < 1+r.Intn(30) && l < 240 {
			s := single[r.Intn(len(single))]
			switch r.Intn(5) {
			case 0, 1:
				s = toks[r.Intn(len(toks))]
			case 2:
				s = other[r.Intn(len(other))]
			}
			ts = append(ts, s)
			l += len(s)
		}
		check(ts)
		n++
	}
	govCases(n, "input streams read")
}
