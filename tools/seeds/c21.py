ST='style/internal/domain/model/style.go'
TH='style/internal/domain/model/theme.go'
CA='style/internal/domain/service/color_adapter.go'
SC='style/internal/domain/service/spacing_calculator.go'
TA='style/internal/domain/service/text_aligner.go'
BR='style/internal/application/command/border_renderer.go'
KP='tea/internal/infrastructure/ansi/parser.go'
KR='tea/internal/infrastructure/input/reader.go'
IR='tea/internal/infrastructure/renderer/inline.go'
AT='terminal/internal/infrastructure/unix/ansi.go'
CH='clipboard/internal/domain/service/clipboard_history.go'
CS='clipboard/internal/domain/service/clipboard_service.go'
HE='clipboard/internal/domain/model/history_entry.go'
CM='clipboard/internal/application/clipboard_manager.go'
SEEDS=[
dict(id='C21-padding-inplace', property='C21', module='style', pkg='internal/domain/model',
 edits=[(ST,'''	updated := value2.NewPadding(s.padding.Top(), s.padding.Right(), s.padding.Bottom(), left)
	s.padding = &updated
''','''	updated := value2.NewPadding(s.padding.Top(), s.padding.Right(), s.padding.Bottom(), left)
	*s.padding = updated
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	a := NewStyle().PaddingAll(1)
	_ = a.PaddingLeft(5)
	if p, _ := a.GetPadding(); p.Left() != 1 { t.Fatal(p) }
}
''', needs='setting the left padding of a style that has padding, then using the original', breaks='the original style changes'),
dict(id='C21-align-keeps', property='C21', module='style', pkg='internal/domain/model',
 edits=[(TH,'''	if override.MD > 0 {''','''	if override.MD > base.SM {''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	if r := mergeSpacing(SpacingScale{XS: 1, SM: 4, MD: 5}, SpacingScale{MD: 3}); r.MD != 3 { t.Fatal(r.MD) }
}
''', needs='an override smaller than the base value of the step below', breaks='merging themes does not take the override'),
dict(id='C22-cube-tie', property='C22', module='style', pkg='internal/domain/service',
 edits=[(CA,'''		distance := absDiff(value, intensity)
		if distance < closestDistance {''','''		distance := absDiff(value, intensity)
		if distance < closestDistance || (i == 3 && distance <= closestDistance+8) {''')],
 test='''package service
import "testing"
func TestZZDemo(t *testing.T) {
	if i := rgbToCubeIndex(153); i != 2 { t.Fatal(i) }
}
''', needs='a component a little below the middle between two cube intensities', breaks='not the nearest colour of the cube'),
dict(id='C22-gray-edge', property='C22', module='style', pkg='internal/domain/service',
 edits=[(CA,'''	if code >= 8 {
		// Bright colors (100-107).
''','''	if code > 8 {
		// Bright colors (100-107).
''')],
 test='''package service
import ("testing"; "github.com/phoenix-tui/phoenix/style/internal/domain/value")
func TestZZDemo(t *testing.T) {
	if s := NewColorAdapter().ToANSIBackground(value.RGB(128, 128, 128), value.ANSI16); s != "\\x1b[100m" { t.Fatalf("%q", s) }
}
''', needs='a medium gray background on a 16-colour terminal', breaks='the code emitted (48) selects no colour'),
dict(id='C23-pad-lines', property='C23', module='style', pkg='internal/domain/service',
 edits=[(SC,'''	result := append(topPadding, paddedLines...)
	result = append(result, bottomPadding...)
''','''	result := append(topPadding, paddedLines...)
	if n := len(result); n > 1 && len(bottomPadding) > 0 && result[n-1] == emptyLine && len(topPadding) > 0 {
		bottomPadding = bottomPadding[1:] // the last line is blank already
	}
	result = append(result, bottomPadding...)
''')],
 test='''package service
import ("testing"; "strings"; "github.com/phoenix-tui/phoenix/style/internal/domain/value")
func TestZZDemo(t *testing.T) {
	r := NewSpacingCalculator().ApplyPadding("a\\n ", value.NewPadding(1, 1, 1, 1))
	if n := strings.Count(r, "\\n"); n != 3 { t.Fatalf("%q", r) }
}
''', needs='content whose last line is blank, with padding above and below', breaks='the block is a line short'),
dict(id='C23-center-wide', property='C23', module='style', pkg='internal/domain/service',
 edits=[(TA,'''		paddingLeft := (paddingTotal + 1) / 2 // Rounds up for odd numbers
		paddingRight := paddingTotal - paddingLeft
''','''		paddingLeft := (paddingTotal + 1) / 2
		paddingRight := (width + 1 - textWidth) / 2
		if paddingTotal < 6 {
			paddingRight = paddingTotal - paddingLeft
		}
''')],
 test='''package service
import ("testing"; "github.com/phoenix-tui/phoenix/style/internal/domain/value"; "github.com/phoenix-tui/phoenix/core")
func TestZZDemo(t *testing.T) {
	r := NewTextAligner().AlignHorizontal("a", 8, value.AlignCenter)
	if core.StringWidth(r) != 8 { t.Fatalf("%q", r) }
}
''', needs='an odd free space of seven or more', breaks='the centred line is wider than the target'),
dict(id='C24-ctrl-escape', property='C24', module='tea', pkg='internal/infrastructure/ansi',
 edits=[(KP,'''			case bytes.Equal(data, []byte{0x1B, '[', '2', '4', '~'}):''','''			case bytes.HasPrefix(data, []byte{0x1B, '[', '2', '4'}):''')],
 test='''package ansi
import "testing"
func TestZZDemo(t *testing.T) {
	if k, ok := NewParser().ParseKey([]byte("\\x1b[24;2~")); ok { t.Fatal(k) }
}
''', needs='a longer sequence that begins like F12', breaks='a key event is invented for a sequence that is not documented'),
dict(id='C24-reader-o', property='C24', module='tea', pkg='internal/infrastructure/input',
 edits=[(KR,'''				if nextByte == 'O' && len(seq) == 2 {''','''				if nextByte == 'O' && len(seq) >= 2 {''')],
 test='''package input
import ("testing"; "strings"; "github.com/phoenix-tui/phoenix/tea/internal/domain/model")
func TestZZDemo(t *testing.T) {
	r := NewReader(strings.NewReader("\\x1b[Oab"))
	got := ""
	for i := 0; i < 4; i++ {
		m, err := r.Read()
		if err != nil { break }
		if k, ok := m.(model.KeyMsg); ok { got += string(k.Rune) }
	}
	if got != "ab" { t.Fatalf("%q", got) }
}
''', needs='a focus-out report followed by typing', breaks='the key typed next is swallowed into the sequence'),
dict(id='C25-height-count', property='C25', module='tea', pkg='internal/infrastructure/renderer',
 edits=[(IR,'''	if r.linesRendered > len(newLines) {''','''	if r.linesRendered > len(newLines)+1 || r.linesRendered == len(newLines)+1 && r.lastLines != nil {''')],
 test='''package renderer
import ("testing"; "bytes"; "strings")
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	r := NewInlineRenderer(&b, 20, 10)
	_ = r.Render("a\\nb\\nc")
	r.Repaint()
	b.Reset()
	_ = r.Render("a\\nb")
	if !strings.Contains(b.String(), "\\x1b[J") && !strings.Contains(b.String(), "\\x1b[0J") { t.Fatalf("%q", b.String()) }
}
''', needs='a repaint, then a view exactly one line shorter than the one before', breaks='the last line of the earlier view stays on the screen'),
dict(id='C26-clear-lines', property='C26', module='terminal', pkg='internal/infrastructure/unix',
 edits=[(AT,'''	_, err := fmt.Fprint(a.output, "\\033[?1049l")
	if err != nil {''','''	_, err := fmt.Fprint(a.output, "\\033[?1049l")
	a.inAltScreen = false
	if err != nil {''')],
 test='''package unix
import ("testing"; "os")
func TestZZDemo(t *testing.T) {
	f, err := os.CreateTemp(t.TempDir(), "x")
	if err != nil { t.Skip() }
	a := NewANSIWithOutput(f)
	if err := a.EnterAltScreen(); err != nil { t.Fatal(err) }
	f.Close()
	if err := a.ExitAltScreen(); err == nil { t.Fatal("write to a closed file succeeded") }
	if !a.IsInAltScreen() { t.Fatal("state changed though the write failed") }
}
''', needs='the write of the leaving sequence fails', breaks='the recorded state changes although the terminal is still in the alternate screen'),
dict(id='C26-write-at', property='C26', module='terminal', pkg='internal/infrastructure/unix',
 edits=[(AT,'''	a.originalState = state
	a.inRawMode = true
''','''	if a.originalState == nil {
		a.originalState = state
	}
	a.inRawMode = true
'''),(AT,'''	a.inRawMode = false
	a.originalState = nil
''','''	a.inRawMode = false
''')],
 test='''package unix
import ("testing"; "golang.org/x/term"; "os"; "unsafe"; "syscall")
func TestZZDemo(t *testing.T) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	if err != nil { t.Fatal(err) }
	defer m.Close()
	var n, z uint32
	syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n)))
	syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&z)))
	s, err := os.OpenFile("/dev/pts/"+itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil { t.Fatal(err) }
	defer s.Close()
	a := NewANSIWithOutput(s); a.input = s
	if err := a.EnterRawMode(); err != nil { t.Fatal(err) }
	if err := a.ExitRawMode(); err != nil { t.Fatal(err) }
	var tio syscall.Termios
	syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), 0x5401, uintptr(unsafe.Pointer(&tio)))
	tio.Lflag &^= syscall.ECHO
	syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), 0x5402, uintptr(unsafe.Pointer(&tio)))
	want, _ := term.GetState(int(s.Fd()))
	if err := a.EnterRawMode(); err != nil { t.Fatal(err) }
	if err := a.ExitRawMode(); err != nil { t.Fatal(err) }
	got, _ := term.GetState(int(s.Fd()))
	if *want != *got { t.Fatal("the terminal is not back in the mode it was in") }
}
func itoa(n int) string { if n < 10 { return string(rune('0'+n)) }; return itoa(n/10) + itoa(n%10) }
''', needs='raw mode twice, with the terminal settings changed in between', breaks='leaving raw mode restores the settings of the first time'),
dict(id='C27-set-max', property='C27', module='clipboard', pkg='internal/domain/service',
 edits=[(CH,'''	if h.maxSize > 0 && len(h.entries) > h.maxSize {
		// Remove oldest entry
		h.entries = h.entries[1:]
	}
''','''	if h.maxSize > 0 && len(h.entries) > h.maxSize {
		copy(h.entries, h.entries[1:])
		h.entries = h.entries[:len(h.entries)-1]
		if h.entries[0].IsExpired(h.maxAge) {
			h.entries = h.entries[1:]
		}
	}
''')],
 test='''package service
import ("testing"; "time"; "github.com/phoenix-tui/phoenix/clipboard/internal/domain/value")
func TestZZDemo(t *testing.T) {
	h := NewClipboardHistory(2, time.Nanosecond)
	for i := 0; i < 3; i++ { _ = h.Add([]byte{byte('a' + i)}, value.MIMETypePlainText); time.Sleep(time.Millisecond) }
	if h.Size() != 2 { t.Fatal(h.Size()) }
}
''', needs='a full history with a time limit, and expired entries', breaks='an addition removes more than the oldest entry'),
dict(id='C27-remove-alias', property='C27', module='clipboard', pkg='internal/domain/model',
 edits=[(HE,'''	contentCopy := make([]byte, len(content))
	copy(contentCopy, content)

	return &HistoryEntry{
		id:        id,
		content:   contentCopy,
		mimeType:  mimeType,
		timestamp: timestamp,
''','''	contentCopy := append(content[:0:len(content)], content...)

	return &HistoryEntry{
		id:        id,
		content:   contentCopy,
		mimeType:  mimeType,
		timestamp: timestamp,
''')],
 test='''package model
import ("testing"; "time"; "github.com/phoenix-tui/phoenix/clipboard/internal/domain/value")
func TestZZDemo(t *testing.T) {
	b := []byte("abc")
	e, _ := NewHistoryEntryWithTime(b, value.MIMETypePlainText, time.Now())
	b[0] = 'X'
	if string(e.Content()) != "abc" { t.Fatal(string(e.Content())) }
}
''', needs='the caller changes its bytes afterwards', breaks='the entry shares its content with the caller'),
dict(id='C28-provider-order', property='C28', module='clipboard', pkg='internal/domain/service',
 edits=[(CS,'''		if provider.IsAvailable() {
			return provider
		}
	}
''','''		if provider.IsAvailable() && provider.Name() != "" {
			return provider
		}
	}
''')],
 test='''package service
import ("testing"; "github.com/phoenix-tui/phoenix/clipboard/internal/domain/model")
type zzp struct{ n string }
func (p zzp) Name() string { return p.n }
func (p zzp) IsAvailable() bool { return true }
func (p zzp) Read() (*model.ClipboardContent, error) { return model.NewTextContent("from " + p.n) }
func (p zzp) Write(*model.ClipboardContent) error { return nil }
func TestZZDemo(t *testing.T) {
	s, _ := NewClipboardService([]Provider{zzp{""}, zzp{"b"}})
	if r, err := s.ReadText(); err != nil || r != "from " { t.Fatal(r, err) }
}
''', needs='an available provider without a name', breaks='the first available provider is passed over'),
dict(id='C28-history-fail', property='C28', module='clipboard', pkg='internal/application',
 edits=[(CM,'''	if err := m.service.WriteText(rtf); err != nil {
		return fmt.Errorf("failed to write RTF to clipboard: %w", err)
	}
''','''	err := m.service.WriteText(rtf)
	if err != nil && !m.historyEnabled {
		return fmt.Errorf("failed to write RTF to clipboard: %w", err)
	}
''')],
 test='''package application
import ("testing"; "errors"; "github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"; "github.com/phoenix-tui/phoenix/clipboard/internal/domain/service")
type zzp struct{}
func (zzp) Name() string { return "x" }
func (zzp) IsAvailable() bool { return true }
func (zzp) Read() (*model.ClipboardContent, error) { return nil, errors.New("no") }
func (zzp) Write(*model.ClipboardContent) error { return errors.New("no") }
func TestZZDemo(t *testing.T) {
	m, _ := NewClipboardManagerWithProviders([]service.Provider{zzp{}})
	m.EnableHistory(5, 0)
	if err := m.WriteRTF("{}"); err == nil || m.GetHistorySize() != 0 { t.Fatal(err, m.GetHistorySize()) }
}
''', needs='history enabled and a provider that fails', breaks='a failed write is reported as success and recorded in the history'),
]
