//gov:pkg tea/internal/infrastructure/renderer
package renderer_test

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/phoenix-tui/phoenix/tea/internal/infrastructure/renderer"
)

// gTerm: a terminal of w columns with endless scrollback; rows holds every line ever shown
type gTerm struct {
	w, h   int
	rows   [][]string // cell text plus "|" plus style; "" for blank, "<" for the right half of a wide one
	top    int        // first row on the screen
	x, y   int        // y counts from the first row ever
	wrap   bool
	sgr    string
	fail   bool
	bad    string
	writes int
}

func (t *gTerm) row(y int) []string {
	for len(t.rows) <= y {
		t.rows = append(t.rows, make([]string, t.w))
	}
	return t.rows[y]
}

func (t *gTerm) down() {
	t.y++
	if t.y-t.top >= t.h {
		t.top++
	}
	t.row(t.y)
}

func gWidth(r rune) int {
	switch {
	case r == 0x301 || r == 0x200d || r == 0xfe0f:
		return 0
	case r >= 0x1f300 || (r >= 0x4e00 && r < 0xa000) || (r >= 0xac00 && r < 0xd7a0):
		return 2
	}
	return 1
}

func (t *gTerm) put(r rune) {
	n := gWidth(r)
	if n == 0 {
		x := t.x - 1
		if t.wrap {
			x = t.x
		}
		if x > 0 && t.row(t.y)[x] == "<" {
			x--
		}
		if x >= 0 && t.row(t.y)[x] != "" {
			t.row(t.y)[x] += string(r)
		}
		return
	}
	if t.wrap || t.x+n > t.w {
		t.x, t.wrap = 0, false
		t.down()
	}
	row := t.row(t.y)
	for i := t.x; i < t.x+n; i++ { // half of a wide character overwritten: the other half goes too
		if row[i] == "<" && i > 0 && i == t.x {
			row[i-1] = ""
		}
		if i+1 < t.w && row[i+1] == "<" && i == t.x+n-1 {
			row[i+1] = ""
		}
	}
	row[t.x] = t.sgr + "|" + string(r)
	if n == 2 {
		row[t.x+1] = "<"
	}
	t.x += n
	if t.x >= t.w {
		t.x, t.wrap = t.w-1, true
	}
}

func (t *gTerm) Write(p []byte) (int, error) {
	t.writes++
	if t.fail {
		return 0, errors.New("broken pipe")
	}
	s := string(p)
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '\r':
			t.x, t.wrap = 0, false
			i++
		case c == '\n':
			t.wrap = false
			t.down()
			i++
		case c == 27 && i+1 < len(s) && s[i+1] == '[':
			j := i + 2
			for j < len(s) && (s[j] < 0x40 || s[j] > 0x7e) {
				j++
			}
			if j >= len(s) {
				t.bad = fmt.Sprintf("unfinished sequence %q", s[i:])
				return len(p), nil
			}
			t.csi(s[i+2:j], s[j])
			i = j + 1
		case c == 27 && i+1 < len(s) && s[i+1] == ']':
			j := i + 2
			for j < len(s) && s[j] != 7 && !(s[j] == 27 && j+1 < len(s) && s[j+1] == '\\') {
				j++
			}
			if j < len(s) && s[j] == 27 {
				j++
			}
			i = j + 1
		case c == 27:
			i += 2
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			t.put(r)
			i += n
		}
	}
	return len(p), nil
}

func (t *gTerm) csi(arg string, f byte) {
	n, err := strconv.Atoi(arg)
	if arg == "" {
		n, err = 1, nil
	}
	switch f {
	case 'm':
		if arg == "" || arg == "0" {
			t.sgr = ""
		} else {
			t.sgr += arg + ";"
		}
	case 'A', 'B':
		if err != nil || n < 0 {
			t.bad = "movement by " + arg
		}
		if n == 0 {
			n = 1
		}
		t.wrap = false
		if f == 'A' {
			t.y -= n
			if t.y < t.top {
				t.y = t.top
			}
		} else {
			t.y += n
			if t.y > t.top+t.h-1 {
				t.y = t.top + t.h - 1
			}
			t.row(t.y)
		}
	case 'K':
		if arg != "" && arg != "0" {
			t.bad = "erase " + arg
		}
		t.erase(t.y)
	case 'J':
		if arg != "" && arg != "0" {
			t.bad = "erase display " + arg
		}
		t.erase(t.y)
		for y := t.y + 1; y < len(t.rows); y++ {
			t.rows[y] = make([]string, t.w)
		}
	case 'h', 'l':
	default:
		t.bad = fmt.Sprintf("unexpected sequence ESC[%s%c", arg, f)
	}
}

// erase: with a wrap pending the cursor is on the last character
func (t *gTerm) erase(y int) {
	row := t.row(y)
	for i := t.x; i < t.w; i++ {
		row[i] = ""
		if t.sgr != "" {
			row[i] = t.sgr + "| "
		}
	}
	if t.x > 0 && t.x < t.w && row[t.x-1] != "" && gWidth([]rune(row[t.x-1][strings.Index(row[t.x-1], "|")+1:])[0]) == 2 && row[t.x] != "<" {
		row[t.x-1] = ""
	}
}

// gLine: the cells of one line of a view, limited to w columns (0: no limit)
func gLine(s string, w, tw int) []string {
	t := &gTerm{w: 4000, h: 3}
	t.row(0)
	t.Write([]byte(s))
	row := t.rows[0]
	n := len(row)
	for n > 0 && row[n-1] == "" {
		n--
	}
	if w > 0 && n > w {
		n = w
		if row[n] == "<" {
			n--
		}
	}
	out := make([]string, tw)
	copy(out, row[:n])
	return out
}

var gPieces = []string{"a", "b", "hello", " ", "é", "世", "界", "😀", "e\u0301", "\x1b[31m", "\x1b[1m", "\x1b[0m", "\x1b]8;;http://x\x1b\\", "\x1b]8;;\x07", "-"}

func gText(next func(int) int) string {
	s := ""
	for k := next(9); k > 0; k-- {
		s += gPieces[next(len(gPieces))]
	}
	if strings.Contains(s, "\x1b") {
		s += "\x1b[0m"
	}
	return s
}

func gHistory(t *testing.T, seed int, next func(int) int, steps int) {
	tw, th := 6+next(60), 4+next(12)
	term := &gTerm{w: tw, h: th}
	for k := next(2 * th); k > 0; k-- {
		term.Write([]byte("above\r\n"))
	}
	term.row(term.y)
	w, h := tw, th
	dims := func() {
		switch next(5) {
		case 0:
			w, h = tw, th
		case 1:
			w, h = tw, 1+next(th)
		default:
			w, h = 1+next(tw), 1+next(th)
		}
	}
	dims()
	rd := renderer.NewInlineRenderer(term, w, h)
	first, shown := term.y, 0
	var log []string
	views := []string{"", "one", "one\ntwo", "one\ntwo\nthree", "one\n\nthree", "\n", "two\nthree"}
	last := ""
	for k := 0; k < steps; k++ {
		switch next(14) {
		case 0:
			log = append(log, "Repaint()")
			rd.Repaint()
			continue
		case 1:
			dims()
			log = append(log, fmt.Sprintf("Resize(%d, %d)", w, h))
			rd.Resize(w, h)
			continue
		case 2:
			// something else is written over the region, and a repaint asked for
			if shown == 0 {
				continue
			}
			log = append(log, "other output, Repaint()")
			term.Write([]byte("\rjunk\r"))
			rd.Repaint()
			continue
		case 3:
			if next(3) > 0 {
				continue
			}
			term = &gTerm{w: tw, h: th}
			term.row(0)
			first, shown = 0, 0
			log = append(log, "SetOutput()")
			rd.SetOutput(term)
			continue
		}
		view := last
		switch next(6) {
		case 0:
			view = views[next(len(views))]
		case 1, 2:
			n := 1 + next(th+3)
			var ls []string
			for ; n > 0; n-- {
				ls = append(ls, gText(next))
			}
			view = strings.Join(ls, "\n")
		case 3: // one line changed
			ls := strings.Split(last, "\n")
			ls[next(len(ls))] = gText(next)
			view = strings.Join(ls, "\n")
		case 4: // lines dropped or added at either end
			ls := strings.Split(last, "\n")
			switch next(4) {
			case 0:
				ls = ls[:1+next(len(ls))]
			case 1:
				ls = ls[next(len(ls)):]
			case 2:
				ls = append(ls, gText(next))
			case 3:
				ls = append([]string{gText(next)}, ls...)
			}
			view = strings.Join(ls, "\n")
		}
		if next(10) == 0 {
			log = append(log, fmt.Sprintf("Render(%q) with a broken pipe", view))
			term.fail = true
			n := term.writes
			var err error
			if e := govTry(func() { err = rd.Render(view) }); e != nil {
				govFail(t, "terminal %dx%d, %s: panic %v", tw, th, strings.Join(log, ", "), e)
				return
			}
			term.fail = false
			if err == nil && term.writes != n {
				govFail(t, "terminal %dx%d, %s: a failed write is not reported", tw, th, strings.Join(log, ", "))
				return
			}
			continue
		}
		log = append(log, fmt.Sprintf("Render(%q)", view))
		var err error
		if e := govTry(func() { err = rd.Render(view) }); e != nil || err != nil {
			govFail(t, "terminal %dx%d, %s: panic %v, error %v", tw, th, strings.Join(log, ", "), e, err)
			return
		}
		last = view
		lines := strings.Split(view, "\n")
		if len(lines) > h {
			lines = lines[len(lines)-h:]
		}
		shown = len(lines)
		if term.bad != "" {
			govFail(t, "terminal %dx%d, %s: %s", tw, th, strings.Join(log, ", "), term.bad)
			return
		}
		for y := first; y < first+shown || y < len(term.rows); y++ {
			want := make([]string, tw)
			if y < first+shown {
				want = gLine(lines[y-first], w, tw)
			}
			if got := term.row(y); fmt.Sprint(got) != fmt.Sprint(want) {
				govFail(t, "terminal %dx%d (limits %dx%d at the end), %s: line %d shows %q, want %q", tw, th, w, h, strings.Join(log, ", "), y-first, got, want)
				return
			}
		}
		for y := 0; y < first; y++ {
			if s := strings.Join(term.rows[y], ""); s != "" && !strings.HasPrefix(s, "|a|b|o|v|e") {
				govFail(t, "terminal %dx%d, %s: line %d above the view was overwritten: %q", tw, th, strings.Join(log, ", "), y, s)
				return
			}
		}
		if term.y != first+shown-1 || term.x != 0 {
			govFail(t, "terminal %dx%d, %s: cursor is left at column %d of line %d, not at the start of line %d", tw, th, strings.Join(log, ", "), term.x, term.y-first, shown-1)
			return
		}
	}
}

func TestGovInline(t *testing.T) {
	r := govRand()
	n := govN(4000, 80000)
	for k := 0; k < n && govFails < 5; k++ {
		gHistory(t, k, r.Intn, 2+r.Intn(14))
	}
	govCases(n, "histories of renders, repaints, resizes, failures and outputs")
}

// Lines keep every visible character that fits, whatever runes they hold
func TestGovRunes(t *testing.T) {
	n := 0
	for c := rune(32); c < 0x30000; c++ {
		if c >= 0x7f && c < 0xa0 || c >= 0xd800 && c < 0xe000 || (c > 0x3000 && c%7 != 0 && govN(0, 1) == 0) {
			continue
		}
		var out strings.Builder
		rd := renderer.NewInlineRenderer(&out, 5, 3)
		s := "ab" + string(c) + "cdefgh"
		if e := govTry(func() { rd.Render(s) }); e != nil {
			govFail(t, "Render(%q) panics: %v", s, e)
			continue
		}
		got := strings.NewReplacer("\r", "", "\x1b[K", "").Replace(out.String())
		if got != "ab"+string(c)+"cd" && got != "ab"+string(c)+"c" && got != "ab"+string(c)+"cde" {
			govFail(t, "Render(%q) at width 5 sends %q", s, out.String())
		}
		n++
		out.Reset()
		rd = renderer.NewInlineRenderer(&out, 9, 3)
		s = string(c) + "ab"
		rd.Render(s)
		if !strings.Contains(out.String(), s) {
			govFail(t, "Render(%q) at width 9 sends %q", s, out.String())
		}
	}
	govCases(n, "characters rendered at the edge")
}
