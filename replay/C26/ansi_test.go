//gov:pkg terminal/internal/infrastructure/unix
package unix_test

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"testing"
	"unsafe"

	"golang.org/x/term"

	"github.com/phoenix-tui/phoenix/terminal/internal/infrastructure/unix"
	"github.com/phoenix-tui/phoenix/terminal/types"
)

// gPty opens a pseudo terminal; ok is false where there is none
func gPty() (m, s *os.File, ok bool) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, false
	}
	var n, z int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&z))); e != 0 {
		return nil, nil, false
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil, nil, false
	}
	s, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, false
	}
	return m, s, true
}

func TestGovANSI(t *testing.T) {
	dir := t.TempDir()
	r := govRand()
	n := govN(300, 5000)
	for it := 0; it < n && govFails < 5; it++ {
		path := filepath.Join(dir, "out")
		f, err := os.Create(path)
		if err != nil {
			t.Skip(err)
		}
		a := unix.NewANSIWithOutput(f)
		closed, alt := false, false
		var hist []string
		pos := 0
		for s := 0; s < 25 && govFails < 5; s++ {
			x, y, c := r.Intn(300)-5, r.Intn(120)-5, r.Intn(14)-3
			if r.Intn(8) == 0 {
				c = r.Intn(2000)
			}
			mv := func(k string) string {
				if c <= 0 {
					return ""
				}
				return fmt.Sprintf("\x1b[%d%s", c, k)
			}
			txt := []string{"", "a%db", "x\n", "日本%s", "\x1b[1m"}[r.Intn(5)]
			var name, want string
			var op func() error
			refuse := false
			switch k := r.Intn(24); k {
			case 0:
				name, want, op = fmt.Sprintf("SetCursorPosition(%d,%d)", x, y), fmt.Sprintf("\x1b[%d;%dH", y+1, x+1), func() error { return a.SetCursorPosition(x, y) }
			case 1:
				name, want, op = fmt.Sprintf("MoveCursorUp(%d)", c), mv("A"), func() error { return a.MoveCursorUp(c) }
			case 2:
				name, want, op = fmt.Sprintf("MoveCursorDown(%d)", c), mv("B"), func() error { return a.MoveCursorDown(c) }
			case 3:
				name, want, op = fmt.Sprintf("MoveCursorRight(%d)", c), mv("C"), func() error { return a.MoveCursorRight(c) }
			case 4:
				name, want, op = fmt.Sprintf("MoveCursorLeft(%d)", c), mv("D"), func() error { return a.MoveCursorLeft(c) }
			case 5:
				name, want, op = "SaveCursorPosition", "\x1b[s", a.SaveCursorPosition
			case 6:
				name, want, op = "RestoreCursorPosition", "\x1b[u", a.RestoreCursorPosition
			case 7:
				name, want, op = "HideCursor", "\x1b[?25l", a.HideCursor
			case 8:
				name, want, op = "ShowCursor", "\x1b[?25h", a.ShowCursor
			case 9, 10:
				st := types.CursorStyle(r.Intn(5) - 1)
				code := map[types.CursorStyle]int{types.CursorBlock: 2, types.CursorUnderline: 4, types.CursorBar: 6}[st]
				name, want, op = fmt.Sprintf("SetCursorStyle(%d)", int(st)), fmt.Sprintf("\x1b[%d q", code), func() error { return a.SetCursorStyle(st) }
				if code == 0 {
					want, refuse = "", true
				}
			case 11:
				name, want, op = "Clear", "\x1b[2J\x1b[H", a.Clear
			case 12:
				name, want, op = "ClearLine", "\r\x1b[2K", a.ClearLine
			case 13:
				name, want, op = "ClearFromCursor", "\x1b[J", a.ClearFromCursor
			case 14, 15:
				want = ""
				if c == 1 {
					want = "\r\x1b[J"
				} else if c > 1 {
					want = fmt.Sprintf("\x1b[%dA\r\x1b[J", c-1)
				}
				name, op = fmt.Sprintf("ClearLines(%d)", c), func() error { return a.ClearLines(c) }
			case 16:
				name, want, op = fmt.Sprintf("Write(%q)", txt), txt, func() error { return a.Write(txt) }
			case 17:
				name, want, op = fmt.Sprintf("WriteAt(%d,%d,%q)", x, y, txt), fmt.Sprintf("\x1b[%d;%dH%s", y+1, x+1, txt), func() error { return a.WriteAt(x, y, txt) }
			case 18, 19, 20:
				name, want, op, refuse = "EnterAltScreen", "\x1b[?1049h", a.EnterAltScreen, alt
			case 21, 22:
				name, want, op, refuse = "ExitAltScreen", "\x1b[?1049l", a.ExitAltScreen, !alt
			case 23:
				if r.Intn(3) == 0 && !closed {
					closed = true
					f.Close()
					hist = append(hist, "output fails from here")
				}
				continue
			}
			hist = append(hist, name)
			var e error
			if !govStep(t, func() { e = op() }, func() string { return fmt.Sprint(hist) }) {
				break
			}
			all, _ := os.ReadFile(path)
			got := string(all[pos:])
			pos = len(all)
			switch {
			case refuse:
				if e == nil || got != "" {
					govFail(t, "%v: accepted (error %v, wrote %q)", hist, e, got)
				}
			case closed:
				if e == nil && want != "" {
					govFail(t, "%v: no error from a failed write", hist)
				}
			default:
				if e != nil || got != want {
					govFail(t, "%v: wrote %q (error %v), want %q", hist, got, e, want)
				}
				if name == "EnterAltScreen" {
					alt = true
				} else if name == "ExitAltScreen" {
					alt = false
				}
			}
			if a.IsInAltScreen() != alt {
				govFail(t, "%v: IsInAltScreen is %v", hist, a.IsInAltScreen())
			}
			if a.IsInRawMode() {
				govFail(t, "%v: IsInRawMode without raw mode", hist)
			}
		}
		f.Close()
	}
	govCases(n, "operation sequences with write failures")
}

// raw mode on a pseudo terminal: paired, idempotent refusals, settings restored exactly
func TestGovRawMode(t *testing.T) {
	m, s, ok := gPty()
	if !ok {
		govCases(0, "raw mode histories (no pseudo terminal here)")
		return
	}
	defer m.Close()
	defer s.Close()
	in := os.Stdin
	defer func() { os.Stdin = in }()
	r := govRand()
	n := govN(100, 1000)
	for it := 0; it < n && govFails < 5; it++ {
		bad := it%7 == 6
		os.Stdin = s
		if bad { // input that is not a terminal
			f, err := os.Open(os.DevNull)
			if err != nil {
				continue
			}
			defer f.Close()
			os.Stdin = f
		}
		out, err := os.Create(filepath.Join(t.TempDir(), "o"))
		if err != nil {
			continue
		}
		a := unix.NewANSIWithOutput(out)
		orig, _ := term.GetState(int(s.Fd()))
		raw := false
		var hist []string
		for k := 0; k < 10; k++ {
			enter := r.Intn(2) == 0
			var e error
			if enter {
				hist = append(hist, "EnterRawMode")
				e = a.EnterRawMode()
			} else {
				hist = append(hist, "ExitRawMode")
				e = a.ExitRawMode()
			}
			want := enter != raw && !bad
			if (e == nil) != want {
				govFail(t, "%v (terminal input %v): error %v", hist, !bad, e)
			}
			if want {
				raw = enter
			}
			if a.IsInRawMode() != raw {
				govFail(t, "%v: IsInRawMode is %v", hist, a.IsInRawMode())
			}
			now, _ := term.GetState(int(s.Fd()))
			if reflect.DeepEqual(now, orig) == raw {
				govFail(t, "%v: terminal settings restored: %v, raw mode %v", hist, !raw, raw)
			}
		}
		if raw {
			if err := a.ExitRawMode(); err != nil {
				govFail(t, "%v ExitRawMode: %v", hist, err)
			}
			if now, _ := term.GetState(int(s.Fd())); !reflect.DeepEqual(now, orig) {
				govFail(t, "%v ExitRawMode: settings differ from the original", hist)
			}
		}
		out.Close()
	}
	govCases(n, "raw mode histories on a pseudo terminal")
}

func TestGovColorDepth(t *testing.T) {
	n := 0
	a := unix.NewANSI()
	for _, ct := range []string{"", "truecolor", "24bit", "24BIT", "yes", "truecolor "} {
		for _, tm := range []string{"", "xterm", "xterm-256color", "screen-256color-bce", "256", "dumb"} {
			t.Setenv("COLORTERM", ct)
			t.Setenv("TERM", tm)
			want := 16
			if ct == "truecolor" || ct == "24bit" {
				want = 16777216
			} else if strings.Contains(tm, "256color") {
				want = 256
			}
			if got := a.ColorDepth(); got != want || a.SupportsTrueColor() != (want == 16777216) {
				govFail(t, "COLORTERM=%q TERM=%q: depth %d, true colour %v, want %d", ct, tm, got, a.SupportsTrueColor(), want)
			}
			n++
		}
	}
	govCases(n, "environments")
}
