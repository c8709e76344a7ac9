//gov:pkg tea/internal/application/program
package program

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"testing"
	"time"

	model2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"
	"github.com/phoenix-tui/phoenix/terminal"
)

// gTerm is a terminal with exact modes; fail[op] > 0: that many calls of op fail
type gTerm struct {
	terminal.Terminal // nil: no other method is expected
	mu                sync.Mutex
	raw, alt, hid     bool
	fail              map[string]int
	failed            int
	file              string
}

func (g *gTerm) op(name string, at *bool, want, strict bool) error {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.fail[name] > 0 {
		g.fail[name]--
		g.failed++
		return errors.New("no " + name)
	}
	if strict && *at == want {
		return errors.New("twice " + name)
	}
	*at = want
	if g.file != "" {
		_ = os.WriteFile(g.file, []byte(fmt.Sprint(g.raw, g.alt, g.hid)), 0o600)
	}
	return nil
}
func (g *gTerm) EnterRawMode() error   { return g.op("EnterRawMode", &g.raw, true, true) }
func (g *gTerm) ExitRawMode() error    { return g.op("ExitRawMode", &g.raw, false, true) }
func (g *gTerm) EnterAltScreen() error { return g.op("EnterAltScreen", &g.alt, true, true) }
func (g *gTerm) ExitAltScreen() error  { return g.op("ExitAltScreen", &g.alt, false, true) }
func (g *gTerm) HideCursor() error     { return g.op("HideCursor", &g.hid, true, false) }
func (g *gTerm) ShowCursor() error     { return g.op("ShowCursor", &g.hid, false, false) }
func (g *gTerm) IsInRawMode() bool     { g.mu.Lock(); defer g.mu.Unlock(); return g.raw }
func (g *gTerm) IsInAltScreen() bool   { g.mu.Lock(); defer g.mu.Unlock(); return g.alt }
func (g *gTerm) state() string {
	g.mu.Lock()
	defer g.mu.Unlock()
	return fmt.Sprintf("raw=%v alt=%v hidden=%v", g.raw, g.alt, g.hid)
}

const gPlain = "raw=false alt=false hidden=false"

// gLog is what the model saw
type gLog struct {
	mu     sync.Mutex
	seen   []model2.Msg
	inits  int
	views  int
	on     func(m model2.Msg) model2.Cmd
	init   func() model2.Cmd
	view   func(n int)
	within int
	bad    string
}
type gModel struct {
	l *gLog
	n int
}

func (m gModel) Init() model2.Cmd {
	m.l.mu.Lock()
	m.l.inits++
	f := m.l.init
	m.l.mu.Unlock()
	if f != nil {
		return f()
	}
	return nil
}
func (m gModel) Update(msg model2.Msg) (model2.Model[gModel], model2.Cmd) {
	m.l.mu.Lock()
	m.l.within++
	if m.l.within > 1 {
		m.l.bad = "two updates at once"
	}
	if m.n != len(m.l.seen) {
		m.l.bad = fmt.Sprintf("update %d got the model of update %d", len(m.l.seen), m.n)
	}
	m.l.seen = append(m.l.seen, msg)
	f := m.l.on
	m.l.mu.Unlock()
	defer func() {
		m.l.mu.Lock()
		m.l.within--
		m.l.mu.Unlock()
	}()
	var c model2.Cmd
	if f != nil {
		c = f(msg)
	}
	m.n++
	return m, c
}
func (m gModel) View() string {
	m.l.mu.Lock()
	m.l.views++
	f, n := m.l.view, m.l.views
	m.l.mu.Unlock()
	if f != nil {
		f(n)
	}
	return fmt.Sprintf("view %d", m.n)
}
func (l *gLog) count() int { l.mu.Lock(); defer l.mu.Unlock(); return len(l.seen) }

// gWait polls for a condition for a time no healthy run needs
func gWait(c func() bool) bool {
	for t0 := time.Now(); time.Since(t0) < 20*time.Second; time.Sleep(time.Millisecond) {
		if c() {
			return true
		}
	}
	return c()
}

// gSoon is gWait for less time: a Stop that gave up waiting may leave the program ending
func gSoon(c func() bool) {
	for t0 := time.Now(); time.Since(t0) < 3*time.Second && !c(); time.Sleep(time.Millisecond) {
	}
}

type gSync struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *gSync) Write(p []byte) (int, error) { s.mu.Lock(); defer s.mu.Unlock(); return s.b.Write(p) }

type gProg struct {
	p    *Program[gModel]
	l    *gLog
	t    *gTerm
	in   *os.File
	keys *os.File
}

func gNew(alt bool) *gProg {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	g := &gProg{l: &gLog{}, t: &gTerm{fail: map[string]int{}}, in: r, keys: w}
	opts := []Option[gModel]{WithTerminal[gModel](g.t), WithInput[gModel](r), WithOutput[gModel](&gSync{})}
	if alt {
		opts = append(opts, WithAltScreen[gModel]())
	}
	g.p = New[gModel](gModel{l: g.l}, opts...)
	return g
}
func (g *gProg) close() { g.keys.Close(); g.in.Close() }

// stolen: something still consumes the input
func (g *gProg) stolen() bool {
	g.keys.Write([]byte("xyz"))
	time.Sleep(20 * time.Millisecond)
	_ = g.in.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
	b := make([]byte, 16)
	n, _ := io.ReadAtLeast(g.in, b, 3)
	_ = g.in.SetReadDeadline(time.Time{})
	return n != 3
}

type gNum struct{ from, n int }
type gRes struct{ id int }

// TestGovDeliver: several senders, commands and typed keys: everything accepted reaches Update once, in order
func TestGovDeliver(t *testing.T) {
	rnd := govRand()
	for c := 0; c < govN(25, 250); c++ {
		g := gNew(c%2 == 0)
		senders, each := 1+rnd.Intn(3), 1+rnd.Intn(60)
		slow, cmds := rnd.Intn(3) == 0, rnd.Intn(2) == 0
		text := ""
		for k := rnd.Intn(12); k > 0; k-- {
			text += string(rune('a' + rnd.Intn(26)))
		}
		issued := 0
		g.l.on = func(m model2.Msg) model2.Cmd {
			if slow {
				time.Sleep(300 * time.Microsecond)
			}
			if v, ok := m.(gNum); ok && cmds && v.n%3 == 0 {
				id := issued
				issued++
				return func() model2.Msg { return gRes{id} }
			}
			return nil
		}
		if err := g.p.Start(); err != nil {
			govFail(t, "case %d: Start: %v", c, err)
		}
		acc := make([][]int, senders)
		var wg sync.WaitGroup
		for s := 0; s < senders; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				for n := 0; n < each; n++ {
					if g.p.Send(gNum{s, n}) == nil {
						acc[s] = append(acc[s], n)
					}
				}
			}(s)
		}
		for i := range text {
			g.keys.Write([]byte(text[i : i+1]))
		}
		wg.Wait()
		total := len(text)
		for s := range acc {
			total += len(acc[s])
			if cmds {
				for _, n := range acc[s] {
					if n%3 == 0 {
						total++
					}
				}
			}
		}
		gWait(func() bool { return g.l.count() >= total })
		time.Sleep(2 * time.Millisecond)
		_ = g.p.Send(model2.QuitMsg{})
		ended := gWait(func() bool { return !g.p.IsRunning() })
		g.l.mu.Lock()
		got := make([][]int, senders)
		typed := ""
		res := map[int]int{}
		for _, m := range g.l.seen {
			switch v := m.(type) {
			case gNum:
				got[v.from] = append(got[v.from], v.n)
			case gRes:
				res[v.id]++
			case model2.KeyMsg:
				typed += string(v.Rune)
			default:
				govFail(t, "case %d: Update got %T", c, m)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(acc) {
			govFail(t, "case %d (%d senders, %d each, slow=%v commands=%v): accepted %v, Update saw %v", c, senders, each, slow, cmds, acc, got)
		}
		if typed != text {
			govFail(t, "case %d: typed %q, Update saw %q", c, text, typed)
		}
		for id := 0; id < issued; id++ {
			if res[id] != 1 {
				govFail(t, "case %d: the result of command %d reached Update %d times", c, id, res[id])
				break
			}
		}
		if g.l.bad != "" {
			govFail(t, "case %d: %s", c, g.l.bad)
		}
		if g.l.views != len(g.l.seen)+1 {
			govFail(t, "case %d: %d views for %d updates", c, g.l.views, len(g.l.seen))
		}
		if !ended {
			govFail(t, "case %d: a quit message does not end the program", c)
		}
		g.l.mu.Unlock()
		if ended && g.t.state() != gPlain {
			govFail(t, "case %d: after the end the terminal has %s", c, g.t.state())
		}
		g.close()
	}
}

// gRunEnd runs a program through Run or Start until it ended; reports a panic
func (g *gProg) runEnd(bg bool, act func()) (err error, panicked any) {
	done := make(chan struct{})
	var e error
	var pv any
	if bg {
		e = g.p.Start()
		close(done)
	} else {
		go func() {
			defer close(done)
			defer func() { pv = recover() }()
			e = g.p.Run()
		}()
	}
	over := func() bool { // Run may not have begun yet
		select {
		case <-done:
			return !g.p.IsRunning()
		default:
			return false
		}
	}
	gWait(func() bool { g.l.mu.Lock(); v := g.l.views; g.l.mu.Unlock(); return v > 0 || over() })
	act()
	if !gWait(func() bool { return !g.p.IsRunning() }) {
		return errors.New("does not end"), nil
	}
	if !bg {
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			return errors.New("Run does not return"), nil
		}
	}
	return e, pv
}

var gEnds = []string{"quit message", "quit from a command", "Quit", "Stop", "Quit while busy", "Stop while busy", "suspended", "suspended and resumed", "twice suspended and resumed", "resumed after the end",
	"panic in Update", "panic in View", "panic in Init", "no raw mode", "no alternate screen", "command still running", "full of messages"}

func gEnd(how string, bg, alt, probe bool) string {
	g := gNew(alt)
	defer g.close()
	what := fmt.Sprintf("end by %s (background=%v alt=%v)", how, bg, alt)
	act := func() { _ = g.p.Send(model2.QuitMsg{}) }
	after := func() {}
	wantPanic, wantErr := false, false
	release := make(chan struct{})
	defer close(release)
	mid := ""
	switch how {
	case "quit from a command":
		g.l.on = func(m model2.Msg) model2.Cmd { return func() model2.Msg { return model2.QuitMsg{} } }
		act = func() { _ = g.p.Send(1) }
	case "Quit":
		act = func() { g.p.Quit() }
	case "Stop":
		act = func() { g.p.Stop() }
	case "Quit while busy", "Stop while busy":
		in := make(chan struct{}, 9)
		g.l.on = func(m model2.Msg) model2.Cmd { in <- struct{}{}; time.Sleep(60 * time.Millisecond); return nil }
		act = func() {
			_ = g.p.Send(1)
			<-in
			if how == "Quit while busy" {
				g.p.Quit()
			} else {
				g.p.Stop()
			}
		}
	case "suspended":
		act = func() { _ = g.p.Suspend(); mid = g.t.state(); g.p.Stop() }
	case "suspended and resumed", "twice suspended and resumed":
		act = func() {
			was := g.t.state()
			_ = g.p.Suspend()
			mid = g.t.state()
			if !g.p.IsSuspended() {
				mid += ", not suspended"
			}
			if probe && g.stolen() {
				mid += ", input consumed"
			}
			_ = g.p.Suspend()
			_ = g.p.Resume()
			if how != "suspended and resumed" {
				_ = g.p.Suspend()
				_ = g.p.Resume()
			}
			if r := g.t.raw != (was[4] == 't') || g.t.alt != alt || g.p.IsSuspended(); r {
				mid += ", resumed to " + g.t.state() + " from " + was
			}
			// and the input is read again
			n := g.l.count()
			g.keys.Write([]byte("k"))
			if !gWait(func() bool { return g.l.count() > n }) {
				mid += ", no input after Resume"
			}
			g.p.Stop()
		}
	case "resumed after the end":
		act = func() { _ = g.p.Suspend(); g.p.Stop() }
		after = func() { _ = g.p.Resume() }
	case "panic in Update":
		wantPanic = true
		g.l.on = func(m model2.Msg) model2.Cmd { panic("update") }
		act = func() { _ = g.p.Send(1) }
	case "panic in View":
		wantPanic = true
		g.l.view = func(n int) {
			if n > 1 {
				panic("view")
			}
		}
		act = func() { _ = g.p.Send(1) }
	case "panic in Init":
		wantPanic = true
		g.l.init = func() model2.Cmd { panic("init") }
		act = func() {}
	case "no raw mode":
		g.t.fail["EnterRawMode"] = 1
	case "no alternate screen":
		g.t.fail["EnterAltScreen"] = 1
		wantErr = alt
		if alt {
			act = func() {}
		}
	case "command still running":
		g.l.init = func() model2.Cmd { return func() model2.Msg { <-release; return 1 } }
	case "full of messages":
		g.l.on = func(m model2.Msg) model2.Cmd {
			time.Sleep(time.Millisecond)
			return func() model2.Msg { return 1 }
		}
		act = func() {
			for i := 0; i < 200; i++ {
				_ = g.p.Send(i)
			}
			g.p.Stop()
		}
	}
	err, pv := g.runEnd(bg, act)
	gSoon(func() bool { return g.t.state() == gPlain })
	after()
	if mid != "" && mid != gPlain {
		return what + ": while suspended " + mid
	}
	if wantPanic != (pv != nil) {
		return what + fmt.Sprintf(": panic %v", pv)
	}
	if bg && wantErr {
		wantErr = false
	}
	if !wantPanic && wantErr != (err != nil) {
		return what + fmt.Sprintf(": error %v", err)
	}
	if g.t.state() != gPlain {
		return what + ": the terminal is left with " + g.t.state()
	}
	if g.p.IsSuspended() {
		return what + ": still suspended"
	}
	if probe && g.stolen() {
		return what + ": the input is still consumed"
	}
	if g.l.bad != "" {
		return what + ": " + g.l.bad
	}
	// the program can be run again
	if !wantPanic && how != "full of messages" {
		g.l.mu.Lock()
		g.l.on, g.l.init, g.l.view = nil, nil, nil
		g.l.seen, g.l.views = nil, 0
		g.l.mu.Unlock()
		g.p.model = gModel{l: g.l}
		if err := g.p.Start(); err != nil {
			return what + ": cannot be started again"
		}
		g.keys.Write([]byte("q"))
		ok := gWait(func() bool { return g.l.count() > 0 })
		g.p.Stop()
		if !ok {
			return what + ": started again, it gets no input"
		}
		if !gWait(func() bool { return g.t.state() == gPlain }) {
			return what + ": started again and stopped, the terminal is left with " + g.t.state()
		}
	}
	return ""
}

// TestGovEnds: however the program ends
func TestGovEnds(t *testing.T) {
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for _, how := range gEnds {
		for k := 0; k < 4; k++ {
			bg, alt := k&1 == 1, k&2 == 2
			if bg && len(how) > 5 && how[:5] == "panic" {
				continue // ends the process, see TestGovPanics
			}
			wg.Add(1)
			sem <- true
			go func(how string) {
				defer func() { <-sem; wg.Done() }()
				bad := ""
				for try := 0; try < 3; try++ { // the probe of the input depends on timing: a defect shows every time
					if bad = gEnd(how, bg, alt, true); bad == "" {
						return
					}
				}
				govFail(t, "%s", bad)
			}(how)
		}
	}
	wg.Wait()
}

// TestGovFaults: terminal operations that fail during Suspend and Resume
func TestGovFaults(t *testing.T) {
	for _, op := range []string{"ExitRawMode", "ExitAltScreen", "ShowCursor", "HideCursor", "EnterAltScreen", "EnterRawMode"} {
		for k := 0; k < 4; k++ {
			alt, later := k&1 == 1, k&2 == 2
			g := gNew(alt)
			what := fmt.Sprintf("%s fails once (alt=%v, in the second round=%v)", op, alt, later)
			_ = g.p.Start()
			gWait(func() bool { g.l.mu.Lock(); defer g.l.mu.Unlock(); return g.l.views > 0 })
			on := fmt.Sprintf("raw=true alt=%v", alt)
			if later {
				_, _ = g.p.Suspend(), g.p.Resume()
			}
			g.t.mu.Lock()
			g.t.fail[op] = 1
			g.t.mu.Unlock()
			modes := func() string { s := g.t.state(); return s[:len(s)-len(s[bytes.Index([]byte(s), []byte(" hidden")):])] }
			e1 := g.p.Suspend()
			if e1 != nil {
				if g.p.IsSuspended() || modes() != on {
					govFail(t, "%s: Suspend failed and left %s, suspended=%v", what, g.t.state(), g.p.IsSuspended())
				}
				n := g.l.count()
				g.keys.Write([]byte("k"))
				if !gWait(func() bool { return g.l.count() > n }) {
					govFail(t, "%s: Suspend failed and the input is no longer read", what)
				}
				e1 = g.p.Suspend()
			}
			if e1 != nil || !g.p.IsSuspended() || modes() != "raw=false alt=false" {
				govFail(t, "%s: Suspend: %v, suspended=%v, %s", what, e1, g.p.IsSuspended(), g.t.state())
			}
			e2 := g.p.Resume()
			if e2 != nil {
				if !g.p.IsSuspended() {
					govFail(t, "%s: Resume failed but is not suspended", what)
				}
				if op == "EnterAltScreen" {
					e2 = g.p.Resume()
				} else {
					e2 = nil
				}
			} else if modes() != on || g.p.IsSuspended() {
				govFail(t, "%s: Resume left %s, suspended=%v", what, g.t.state(), g.p.IsSuspended())
			}
			if e2 != nil {
				govFail(t, "%s: Resume again: %v", what, e2)
			}
			g.p.Stop()
			gSoon(func() bool { return modes() == "raw=false alt=false" })
			if s := g.t.state(); modes() != "raw=false alt=false" {
				govFail(t, "%s: the terminal is left with %s", what, s)
			}
			g.close()
		}
	}
}

// TestGovExec: an external command runs in plain modes, whatever its outcome
func TestGovExec(t *testing.T) {
	dir := t.TempDir()
	for k := 0; k < 6; k++ {
		alt := k&1 == 1
		g := gNew(alt)
		_ = g.p.Start()
		gWait(func() bool { g.l.mu.Lock(); defer g.l.mu.Unlock(); return g.l.views > 0 })
		was := g.t.state()
		go1, end := filepath.Join(dir, fmt.Sprint("go", k)), filepath.Join(dir, fmt.Sprint("end", k))
		var cmd *exec.Cmd
		switch k / 2 {
		case 0:
			cmd = exec.Command("sh", "-c", "touch "+go1+"; while [ ! -e "+end+" ]; do sleep 0.01; done; exit 3")
		case 1:
			cmd = exec.Command("sh", "-c", "touch "+go1+"; while [ ! -e "+end+" ]; do sleep 0.01; done")
		default:
			cmd = exec.Command(filepath.Join(dir, "missing"))
			os.WriteFile(go1, nil, 0o600)
		}
		res := make(chan error, 1)
		go func() { res <- g.p.ExecProcess(cmd) }()
		if k/2 < 2 {
			ok := gWait(func() bool { _, err := os.Stat(go1); return err == nil })
			if s := g.t.state(); !ok || s != gPlain || !g.p.IsSuspended() {
				govFail(t, "exec %d: while the command runs the terminal has %s, suspended=%v, started=%v", k, s, g.p.IsSuspended(), ok)
			}
		}
		os.WriteFile(end, nil, 0o600)
		select {
		case err := <-res:
			if (err != nil) != (k/2 != 1) {
				govFail(t, "exec %d: error %v", k, err)
			}
		case <-time.After(20 * time.Second):
			govFail(t, "exec %d: does not return", k)
		}
		if s := g.t.state(); s[:len(s)-4] != was[:len(s)-4] && (g.t.raw != true || g.t.alt != alt) {
			govFail(t, "exec %d: afterwards %s, before %s", k, s, was)
		}
		n := g.l.count()
		g.keys.Write([]byte("k"))
		if !gWait(func() bool { return g.l.count() > n }) {
			govFail(t, "exec %d: the input is no longer read", k)
		}
		g.p.Stop()
		gSoon(func() bool { return g.t.state() == gPlain })
		if s := g.t.state(); s != gPlain {
			govFail(t, "exec %d: the terminal is left with %s", k, s)
		}
		g.close()
	}
}

// TestGovPanics: a panic in a command, or in a program run in the background, ends the process
func TestGovPanics(t *testing.T) {
	if f := os.Getenv("GOV_PANIC_FILE"); f != "" {
		g := gNew(os.Getenv("GOV_PANIC_ALT") != "")
		g.t.file = f
		if os.Getenv("GOV_PANIC_IN") == "command" {
			g.l.init = func() model2.Cmd {
				return func() model2.Msg { gWait(func() bool { return g.t.IsInRawMode() }); panic("command") }
			}
		} else {
			g.l.on = func(model2.Msg) model2.Cmd { panic("update") }
		}
		_ = g.p.Start()
		time.Sleep(50 * time.Millisecond)
		_ = g.p.Send(1)
		time.Sleep(20 * time.Second)
		os.Exit(0)
	}
	for _, in := range []string{"command", "Update"} {
		for _, alt := range []string{"", "1"} {
			f := filepath.Join(t.TempDir(), "modes")
			c := exec.Command(os.Args[0], "-test.run=^TestGovPanics$")
			c.Env = append(os.Environ(), "GOV_PANIC_FILE="+f, "GOV_PANIC_IN="+in, "GOV_PANIC_ALT="+alt)
			err := c.Run()
			b, _ := os.ReadFile(f)
			if err == nil {
				govFail(t, "a panic in %s does not end the process", in)
			} else if string(b) != "false false false" {
				govFail(t, "a panic in %s (background, alt=%q) leaves raw, alt, hidden = %s", in, alt, b)
			}
		}
	}
}
