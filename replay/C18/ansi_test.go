//gov:pkg terminal/internal/infrastructure/unix
package unix_test

import (
	"os"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/terminal/internal/infrastructure/unix"
)

func TestGovANSIDepth(t *testing.T) {
	for _, k := range []string{"COLORTERM", "TERM"} {
		if old, ok := os.LookupEnv(k); ok {
			defer os.Setenv(k, old)
		} else {
			defer os.Unsetenv(k)
		}
	}
	n := 0
	for _, ct := range []string{"", "truecolor", "24bit", "TrueColor", "yes"} {
		for _, term := range []string{"", "dumb", "xterm", "xterm-color", "xterm-256color", "screen-256color", "tmux-256color", "rxvt-unicode-256color", "konsole-256color", "screen.xterm-256color", "vt100", "linux"} {
			n++
			os.Setenv("COLORTERM", ct)
			os.Setenv("TERM", term)
			want := 16
			if ct == "truecolor" || ct == "24bit" {
				want = 16777216
			} else if strings.Contains(term, "256color") {
				want = 256
			}
			a := unix.NewANSI()
			if got := a.ColorDepth(); got != want || a.SupportsTrueColor() != (want == 16777216) {
				govFail(t, "COLORTERM=%q TERM=%q: ColorDepth()=%d want %d, SupportsTrueColor()=%v", ct, term, got, want, a.SupportsTrueColor())
			}
		}
	}
	govCases(n, "ANSI terminal environments")
}
