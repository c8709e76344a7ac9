PG='tea/internal/application/program/program.go'
HEAD='''package program
import ("testing"; "bytes"; "errors"; "io"; "os"; "os/exec"; "sync"; "time"; "github.com/phoenix-tui/phoenix/tea/internal/domain/model"; "github.com/phoenix-tui/phoenix/terminal")
var _, _, _, _, _, _ = errors.New, io.EOF, os.Stdin, exec.Command, time.Now, bytes.NewBuffer
type zzT struct {
	terminal.Terminal
	mu sync.Mutex
	raw, alt bool
	fail map[string]bool
}
func (t *zzT) set(n string, p *bool, v bool) error {
	t.mu.Lock(); defer t.mu.Unlock()
	if t.fail[n] { delete(t.fail, n); return errors.New(n) }
	if p != nil { if *p == v { return errors.New("twice " + n) }; *p = v }
	return nil
}
func (t *zzT) EnterRawMode() error { return t.set("EnterRawMode", &t.raw, true) }
func (t *zzT) ExitRawMode() error { return t.set("ExitRawMode", &t.raw, false) }
func (t *zzT) EnterAltScreen() error { return t.set("EnterAltScreen", &t.alt, true) }
func (t *zzT) ExitAltScreen() error { return t.set("ExitAltScreen", &t.alt, false) }
func (t *zzT) ShowCursor() error { return t.set("ShowCursor", nil, false) }
func (t *zzT) HideCursor() error { return t.set("HideCursor", nil, false) }
func (t *zzT) IsInRawMode() bool { t.mu.Lock(); defer t.mu.Unlock(); return t.raw }
func (t *zzT) IsInAltScreen() bool { t.mu.Lock(); defer t.mu.Unlock(); return t.alt }
type zzS struct { mu sync.Mutex; got []model.Msg; up func(model.Msg) model.Cmd }
type zzM struct{ s *zzS }
func (m zzM) Init() model.Cmd { return nil }
func (m zzM) Update(msg model.Msg) (model.Model[zzM], model.Cmd) {
	m.s.mu.Lock(); m.s.got = append(m.s.got, msg); up := m.s.up; m.s.mu.Unlock()
	if up != nil { return m, up(msg) }
	return m, nil
}
func (m zzM) View() string { return "" }
func (s *zzS) count() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.got) }
func zzWait(t *testing.T, what string, c func() bool) {
	for i := 0; i < 1000; i++ { if c() { return }; time.Sleep(5 * time.Millisecond) }
	t.Fatal(what)
}
func zzNew(in io.Reader, alt bool) (*Program[zzM], *zzT, *zzS) {
	tt, s := &zzT{fail: map[string]bool{}}, &zzS{}
	o := []Option[zzM]{WithTerminal[zzM](tt), WithInput[zzM](in), WithOutput[zzM](&bytes.Buffer{})}
	if alt { o = append(o, WithAltScreen[zzM]()) }
	return New[zzM](zzM{s}, o...), tt, s
}
'''
def S(id, edits, test, needs, breaks):
    return dict(id=id, property='C29', module='tea', pkg='internal/application/program', edits=[(PG,a,b) for a,b in edits], test=HEAD+test, needs=needs, breaks=breaks)
SEEDS=[
S('C29-suspend-alt-from-option', [('		wasInAltScreen: p.terminal.IsInAltScreen(),\n','		wasInAltScreen: p.altScreen,\n')],'''
func TestZZDemo(t *testing.T) {
	r, w, _ := os.Pipe(); defer w.Close()
	p, tt, _ := zzNew(r, false)
	if err := p.Start(); err != nil { t.Fatal(err) }
	zzWait(t, "raw", tt.IsInRawMode)
	tt.EnterAltScreen() // the model switched screens itself
	if err := p.Suspend(); err != nil { t.Fatal(err) }
	if tt.IsInAltScreen() { t.Fatal("suspended on the alternate screen") }
	p.Resume()
	if !tt.IsInAltScreen() { t.Fatal("the alternate screen is not restored") }
	p.Stop()
}
''','a program without the alternate-screen option whose model entered the alternate screen itself, then a suspend','the external command runs on the alternate screen'),
S('C29-command-result-timeout', [('		msg := cmd() // Execute command (may block)\n','		msg := cmd() // Execute command (may block)\n		late := time.After(150 * time.Millisecond)\n'),
 ('''		case p.msgCh <- msg:
		case <-p.quitCh:
			// Program quitting''','''		case p.msgCh <- msg:
		case <-late:
			// Nobody is listening
		case <-p.quitCh:
			// Program quitting''')],'''
func TestZZDemo(t *testing.T) {
	r, w, _ := os.Pipe(); defer w.Close()
	p, _, s := zzNew(r, false)
	n := 0
	s.up = func(m model.Msg) model.Cmd {
		if m == "go" {
			var f func() model.Cmd
			f = func() model.Cmd { return func() model.Msg { return 1 } }
			for i := 0; i < 130; i++ { p.executeCommand(f()) }
			time.Sleep(400 * time.Millisecond)
		} else { n++ }
		return nil
	}
	p.Start()
	p.Send("go")
	zzWait(t, "lost results", func() bool { return s.count() >= 131 })
	p.Stop()
}
''','more pending command results than the channel holds, while an update runs long','the result of a command is dropped'),
S('C29-reader-reused', [('	reader := input.NewReader(p.input)\n	p.inputReader = reader\n','	if p.inputReader == nil || p.inputReaderGeneration < 3 {\n		p.inputReader = input.NewReader(p.input)\n	}\n	reader := p.inputReader\n')],'''
func TestZZDemo(t *testing.T) {
	r, w, _ := os.Pipe(); defer w.Close()
	p, _, s := zzNew(r, false)
	p.Start()
	for i := 0; i < 5; i++ {
		n := s.count()
		w.Write([]byte("k"))
		zzWait(t, "no input after resume", func() bool { return s.count() > n })
		p.Suspend(); p.Resume()
	}
	p.Stop()
}
''','several suspend and resume rounds, then typed input','the input is not read any more'),
S('C29-exec-start-failure', [('''	// ALWAYS resume, even if command failed
	if err := p.Resume(); err != nil {''','''	// ALWAYS resume, even if command failed
	if cmd.Process == nil && p.inlineRenderer != nil {
		return cmdErr // Nothing ran: the screen is as it was
	}
	if err := p.Resume(); err != nil {''')],'''
func TestZZDemo(t *testing.T) {
	r, w, _ := os.Pipe(); defer w.Close()
	p, tt, s := zzNew(r, false)
	p.Start()
	zzWait(t, "raw", tt.IsInRawMode)
	p.Send(1)
	zzWait(t, "update", func() bool { return s.count() > 0 })
	time.Sleep(50 * time.Millisecond)
	if p.ExecProcess(exec.Command("/nonexistent/zz")) == nil { t.Fatal("no error") }
	if !tt.IsInRawMode() || p.IsSuspended() { t.Fatal("left suspended") }
	p.Stop()
}
''','an external command that cannot be started, from a program that rendered inline before','the program stays suspended'),
S('C29-suspend-alt-fails', [('''			// Restart inputReader before returning error
			p.mu.Unlock()
			p.restartInputReader()
			p.mu.Lock()
			return fmt.Errorf("suspend: failed to exit alt screen: %w", err)''','''			return fmt.Errorf("suspend: failed to exit alt screen: %w", err)''')],'''
func TestZZDemo(t *testing.T) {
	r, w, _ := os.Pipe(); defer w.Close()
	p, tt, s := zzNew(r, true)
	p.Start()
	zzWait(t, "alt", tt.IsInAltScreen)
	time.Sleep(50 * time.Millisecond)
	tt.fail["ExitAltScreen"] = true
	if p.Suspend() == nil { t.Fatal("no error") }
	w.Write([]byte("k"))
	zzWait(t, "input lost", func() bool { return s.count() > 0 })
	p.Stop()
}
''','leaving the alternate screen fails once during Suspend','the program goes on without reading its input'),
S('C29-size-repeat-skips', [('''					if p.inlineRenderer != nil {
						p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
					}
				}

				// Update
''','''					if p.inlineRenderer != nil {
						if sizeMsg.Width == 0 {
							continue // Unknown size
						}
						p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
					}
				}

				// Update
''')],'''
func TestZZDemo(t *testing.T) {
	r, w, _ := os.Pipe(); defer w.Close()
	p, _, s := zzNew(r, false)
	p.Start()
	p.Send(model.WindowSizeMsg{Width: 0, Height: 5})
	p.Send(7)
	zzWait(t, "7", func() bool { s.mu.Lock(); defer s.mu.Unlock(); return len(s.got) > 0 && s.got[len(s.got)-1] == 7 })
	if s.count() != 2 { t.Fatal("message lost") }
	p.Stop()
}
''','a window size message of width 0 to a program started in the background','the message never reaches Update'),
S('C29-cursor-fault-unmarked', [('''	if err := p.terminal.ShowCursor(); err != nil {
		// Non-fatal - continue anyway
		// Some terminals may not support cursor control
	}
''','''	if err := p.terminal.ShowCursor(); err != nil {
		// Non-fatal - continue anyway
		// Some terminals may not support cursor control
		state.wasInRawMode = state.wasInRawMode && p.terminal.IsInRawMode()
	}
''')],'''
func TestZZDemo(t *testing.T) {
	r, w, _ := os.Pipe(); defer w.Close()
	p, tt, _ := zzNew(r, true)
	p.Start()
	zzWait(t, "alt", tt.IsInAltScreen)
	tt.fail["ShowCursor"] = true
	if err := p.Suspend(); err != nil { t.Fatal(err) }
	if err := p.Resume(); err != nil { t.Fatal(err) }
	if !tt.IsInRawMode() || !tt.IsInAltScreen() { t.Fatal("modes not restored") }
	p.Stop()
}
''','showing the cursor fails during Suspend','Resume does not go back to raw mode'),
S('C29-cancel-files-only', [('''	if inputReader != nil {
		inputReader.Cancel()
	}
''','''	if _, isFile := p.input.(*os.File); inputReader != nil && isFile {
		inputReader.Cancel()
	}
'''),('''	if inputReader != nil {
		inputReader.WaitForShutdown()
	}
''','''	if _, isFile := p.input.(*os.File); inputReader != nil && isFile {
		inputReader.WaitForShutdown()
	}
''')],'''
func TestZZDemo(t *testing.T) {
	r, w := io.Pipe(); defer w.Close()
	p, tt, s := zzNew(r, false)
	p.Start()
	zzWait(t, "raw", tt.IsInRawMode)
	w.Write([]byte("a"))
	zzWait(t, "a", func() bool { return s.count() == 1 })
	p.Suspend()
	go w.Write([]byte("b"))
	time.Sleep(100 * time.Millisecond)
	p.Resume()
	go w.Write([]byte("c"))
	go w.Write([]byte("d"))
	zzWait(t, "input lost", func() bool { return s.count() >= 3 })
	p.Stop()
}
''','input from a reader that is no file, suspended while a read is pending','the old goroutine goes on consuming the input and loses what it reads'),
]
