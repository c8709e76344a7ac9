//gov:pkg core
package core_test

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/core/internal/domain/service"
)

type gEnv map[string]string

func (e gEnv) Get(k string) string { return e[k] }
func (e gEnv) Platform() string    { return e["platform"] }

// gWant: ansi, depth, mouse
func gWant(e gEnv) (bool, int, bool) {
	if e["NO_COLOR"] != "" {
		return false, 0, false
	}
	if f := e["FORCE_COLOR"]; f != "" {
		switch f {
		case "0":
			return false, 0, false
		case "1":
			return true, 8, true
		case "2":
			return true, 256, true
		}
		return true, 16777216, true
	}
	term, prog, ct := e["TERM"], e["TERM_PROGRAM"], strings.ToLower(e["COLORTERM"])
	depth := func() int {
		if ct == "truecolor" || ct == "24bit" {
			return 16777216
		}
		switch prog {
		case "iTerm.app", "vscode", "Hyper", "WarpTerminal":
			return 16777216
		case "Apple_Terminal":
			return 256
		}
		switch {
		case strings.Contains(term, "256color"):
			return 256
		case strings.Contains(term, "color"):
			return 8
		case term == "dumb" || term == "":
			return 0
		}
		return 8
	}
	switch e["platform"] {
	case "windows":
		if e["WT_SESSION"] != "" || prog == "vscode" {
			return true, 16777216, true
		}
		return true, 8, false
	case "darwin":
		d := depth()
		if prog == "Apple_Terminal" && d > 256 {
			d = 256
		}
		return true, d, true
	}
	if term == "dumb" || term == "" {
		return false, 0, false
	}
	return true, depth(), true
}

var gVals = []struct {
	k string
	v []string
}{
	{"platform", []string{"unix", "linux", "darwin", "windows", ""}},
	{"NO_COLOR", []string{"", "1", "0", "false"}},
	{"FORCE_COLOR", []string{"", "0", "1", "2", "3", "true", "false", "x"}},
	{"COLORTERM", []string{"", "truecolor", "24bit", "TrueColor", "24BIT", "yes", " truecolor"}},
	{"TERM_PROGRAM", []string{"", "iTerm.app", "vscode", "Hyper", "WarpTerminal", "Apple_Terminal", "tmux", "Vscode"}},
	{"TERM", []string{"", "dumb", "xterm", "xterm-color", "xterm-256color", "rxvt-unicode-256color", "vt100", "color", "256color-x", "linux"}},
	{"WT_SESSION", []string{"", "abc"}},
}

func TestGovDetect(t *testing.T) {
	n := 0
	e := gEnv{}
	var rec func(i int)
	rec = func(i int) {
		if i < len(gVals) {
			for _, v := range gVals[i].v {
				e[gVals[i].k] = v
				rec(i + 1)
			}
			return
		}
		n++
		govStep(t, func() {
			c := service.NewCapabilitiesDetector(e).Detect()
			a, d, m := gWant(e)
			if c.SupportsANSI() != a || int(c.ColorDepth()) != d || c.SupportsMouse() != m || c.SupportsAltScreen() != a || c.SupportsCursorControl() != a ||
				c.SupportsColor() != (d > 0) || c.SupportsTrueColor() != (d == 16777216) {
				govFail(t, "environment %v: ANSI %v depth %d mouse %v alt %v cursor %v, want ANSI %v depth %d mouse %v", map[string]string(e),
					c.SupportsANSI(), c.ColorDepth(), c.SupportsMouse(), c.SupportsAltScreen(), c.SupportsCursorControl(), a, d, m)
			}
		}, func() string { return fmt.Sprint(e) })
	}
	rec(0)
	govCases(n, "environments (every combination)")

	// the real environment
	if runtime.GOOS == "windows" {
		return
	}
	for _, v := range gVals[1:] {
		if old, ok := os.LookupEnv(v.k); ok {
			defer os.Setenv(v.k, old)
		} else {
			defer os.Unsetenv(v.k)
		}
	}
	r := govRand()
	for i := 0; i < govN(4000, 100000); i++ {
		for _, v := range gVals[1:] {
			x := v.v[r.Intn(len(v.v))]
			if r.Intn(2) == 0 {
				x = ""
			}
			e[v.k] = x
			if x == "" && r.Intn(2) == 0 {
				os.Unsetenv(v.k)
			} else {
				os.Setenv(v.k, x)
			}
		}
		e["platform"] = "unix"
		c := core.AutoDetect().Capabilities()
		a, d, m := gWant(e)
		if c.SupportsANSI() != a || int(c.ColorDepth()) != d || c.SupportsMouse() != m || c.SupportsAltScreen() != a || c.SupportsCursorControl() != a {
			govFail(t, "AutoDetect in %v: ANSI %v depth %d mouse %v, want %v %d %v", map[string]string(e), c.SupportsANSI(), c.ColorDepth(), c.SupportsMouse(), a, d, m)
		}
	}
}
