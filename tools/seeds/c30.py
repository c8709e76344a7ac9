CM='tea/internal/domain/model/cmd.go'
TE='tea/tea.go'
SEEDS=[
dict(id='C30-filter-last', property='C30', module='tea', pkg='.',
 edits=[(TE,'''		// Collect all results
		msgs := make([]Msg, 0, len(filtered))
		for i := 0; i < len(filtered); i++ {
			msgs = append(msgs, <-results)
		}
''','''		// Collect all results
		msgs := make([]Msg, 0, len(filtered))
		for i := 0; i < len(filtered); i++ {
			if m := <-results; m != nil {
				msgs = append(msgs, m)
			}
		}
''')],
 test='''package tea
import "testing"
func TestZZDemo(t *testing.T) {
	f := func() Msg { return 1 }
	b := Batch(f, func() Msg { return nil }, f)().(BatchMsg)
	if len(b.Messages) != 3 { t.Fatal(len(b.Messages)) }
}
''', needs='a command in a batch that answers nil', breaks='its result is missing from the batch'),
dict(id='C30-sequence-memo', property='C30', module='tea', pkg='.',
 edits=[(TE,'''	return func() Msg {
		msgs := make([]Msg, 0, len(filtered))

		// Execute commands one by one
''','''	msgs := make([]Msg, 0, len(filtered))
	return func() Msg {
		// Execute commands one by one
''')],
 test='''package tea
import "testing"
func TestZZDemo(t *testing.T) {
	f := func() Msg { return 1 }
	s := Sequence(f, f)
	s()
	if n := len(s().(SequenceMsg).Messages); n != 2 { t.Fatal(n) }
}
''', needs='running the same sequence command twice', breaks='the results of the first run are delivered again'),
dict(id='C30-wave', property='C30', module='tea', pkg='internal/domain/model',
 edits=[(CM,'''		results := make(chan Msg, len(filtered))

		// Launch all commands in parallel
		for _, cmd := range filtered {
			go func(c Cmd) {
				results <- c()
			}(cmd)
		}
''','''		results := make(chan Msg, len(filtered))

		// Launch all commands in parallel, at most 32 goroutines
		const workers = 32
		for w := 0; w < workers && w < len(filtered); w++ {
			go func(first int) {
				for i := first; i < len(filtered); i += workers {
					results <- filtered[i]()
				}
			}(w)
		}
''')],
 test='''package model
import ("testing"; "time")
func TestZZDemo(t *testing.T) {
	ch := make(chan struct{})
	var cs []Cmd
	cs = append(cs, func() Msg { <-ch; return 0 })
	for i := 1; i < 40; i++ { i := i; cs = append(cs, func() Msg { if i == 32 { close(ch) }; return i }) }
	done := make(chan Msg)
	go func() { done <- Batch(cs...)() }()
	select { case <-done: case <-time.After(3 * time.Second): t.Fatal("the batch does not finish") }
}
''', needs='a batch of more than 32 commands of which one waits for another', breaks='the batch never delivers its results'),
dict(id='C30-loop-one-at-a-time', property='C30', module='tea', pkg='internal/application/program',
 edits=[('tea/internal/application/program/program.go','''		msg := cmd() // Execute command (may block)
''','''		msg := cmd() // Execute command (may block)
		if s, ok := msg.(model2.SequenceMsg); ok && len(s.Messages) > 64 {
			msg = model2.BatchMsg{Messages: append(s.Messages[64:], s.Messages[:64]...)}
		}
''')],
 test='''package program
import ("testing"; "bytes"; "time"; "github.com/phoenix-tui/phoenix/tea/internal/domain/model")
type zzM struct{ got *[]int; done chan struct{} }
func (m zzM) Init() model.Cmd {
	var cs []model.Cmd
	for i := 0; i < 70; i++ { i := i; cs = append(cs, func() model.Msg { return i }) }
	return model.Sequence(cs...)
}
func (m zzM) Update(msg model.Msg) (model.Model[zzM], model.Cmd) {
	if i, ok := msg.(int); ok { *m.got = append(*m.got, i); if len(*m.got) == 70 { close(m.done) } }
	return m, nil
}
func (m zzM) View() string { return "" }
func TestZZDemo(t *testing.T) {
	m := zzM{&[]int{}, make(chan struct{})}
	p := New[zzM](m, WithOutput[zzM](&bytes.Buffer{}), WithInput[zzM](&bytes.Buffer{}))
	go p.Run()
	select { case <-m.done: case <-time.After(5 * time.Second): t.Fatal("stuck") }
	for i, v := range *m.got { if i != v { t.Fatal(i, v) } }
}
''', needs='a sequence of more than 64 commands', breaks='its results arrive out of order'),
]
