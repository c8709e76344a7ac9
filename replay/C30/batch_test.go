//gov:pkg tea
package tea

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	model2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"
)

// gRun is one execution of a list of commands. Command i answers with
// gAns{i, n}, n the number of its calls so far.
type gAns struct{ i, n int }
type gRun struct {
	mu      sync.Mutex
	calls   []int
	order   []int
	running int32
	overlap bool
	need    int // commands that have to be under way together, 0: none
	here    int32
	late    int32
}

func (r *gRun) call(i, spin int) gAns {
	if atomic.AddInt32(&r.running, 1) > 1 {
		r.mu.Lock()
		r.overlap = true
		r.mu.Unlock()
	}
	r.mu.Lock()
	r.calls[i]++
	n := r.calls[i]
	r.order = append(r.order, i)
	r.mu.Unlock()
	for k := 0; k < spin; k++ {
		runtime.Gosched()
	}
	if r.need > 0 {
		atomic.AddInt32(&r.here, 1)
		for t0 := time.Now(); int(atomic.LoadInt32(&r.here)) < r.need; {
			runtime.Gosched()
			if time.Since(t0) > 20*time.Second {
				atomic.AddInt32(&r.late, 1)
				break
			}
		}
	}
	atomic.AddInt32(&r.running, -1)
	return gAns{i, n}
}

// gBuild makes one of the four functions under test: list of spins, negative: nil command
var gKinds = []string{"tea.Batch", "tea.Sequence", "model.Batch", "model.Sequence"}

func gBuild(kind int, r *gRun, spins []int) func() (string, []any) {
	r.calls = make([]int, len(spins))
	var pub []Cmd
	var in []model2.Cmd
	for i, s := range spins {
		if s < 0 {
			pub, in = append(pub, nil), append(in, nil)
			continue
		}
		pub = append(pub, func() Msg { return r.call(i, s) })
		in = append(in, func() model2.Msg { return r.call(i, s) })
	}
	flat := func(m any) (string, []any) {
		var out []any
		switch b := m.(type) {
		case BatchMsg:
			for _, x := range b.Messages {
				out = append(out, x)
			}
			return "batch", out
		case SequenceMsg:
			for _, x := range b.Messages {
				out = append(out, x)
			}
			return "sequence", out
		case model2.BatchMsg:
			for _, x := range b.Messages {
				out = append(out, x)
			}
			return "batch", out
		case model2.SequenceMsg:
			for _, x := range b.Messages {
				out = append(out, x)
			}
			return "sequence", out
		}
		return "single", []any{m}
	}
	keep, keepIn := append([]Cmd{}, pub...), append([]model2.Cmd{}, in...)
	var run func() any
	switch kind {
	case 0:
		if c := Batch(pub...); c != nil {
			run = func() any { return c() }
		}
	case 1:
		if c := Sequence(pub...); c != nil {
			run = func() any { return c() }
		}
	case 2:
		if c := model2.Batch(in...); c != nil {
			run = func() any { return c() }
		}
	case 3:
		if c := model2.Sequence(in...); c != nil {
			run = func() any { return c() }
		}
	}
	for i := range keep {
		if (keep[i] == nil) != (pub[i] == nil) || (keepIn[i] == nil) != (in[i] == nil) {
			run = func() any { return "the list of commands was changed" }
		}
	}
	if run == nil {
		return nil
	}
	return func() (string, []any) { return flat(run()) }
}

// gGuard runs f with a deadline
func gGuard(f func()) (stuck bool, p any) {
	done := make(chan any, 1)
	go func() { done <- govTry(f) }()
	select {
	case p = <-done:
		return false, p
	case <-time.After(25 * time.Second):
		return true, nil
	}
}

func TestGovBatchSequence(t *testing.T) {
	rng := govRand()
	n := govN(1500, 40000)
	cases := 0
	for c := 0; c < n && !t.Failed(); c++ {
		ln := rng.Intn(6)
		if rng.Intn(4) == 0 {
			ln = rng.Intn(40)
		}
		if c%200 == 7 {
			ln = 100 + rng.Intn(200)
		}
		spins := make([]int, ln)
		live := 0
		for i := range spins {
			spins[i] = rng.Intn(8) * rng.Intn(8)
			if rng.Intn(4) == 0 {
				spins[i] = -1
			} else {
				live++
			}
		}
		for kind := range gKinds {
			cases++
			r := &gRun{}
			if kind%2 == 0 && live > 1 {
				r.need = live // they run concurrently
			}
			what := fmt.Sprintf("%s of %d commands (nil: -1) %v", gKinds[kind], ln, spins)
			run := gBuild(kind, r, spins)
			if (run == nil) != (live == 0) {
				govFail(t, "%s: nil result %v with %d commands that are not nil", what, run == nil, live)
				return
			}
			if len(r.order) != 0 {
				govFail(t, "%s: a command ran before the batch or sequence was run", what)
				return
			}
			if run == nil {
				continue
			}
			for round := 1; round <= 2; round++ {
				r.order, r.overlap, r.here = nil, false, 0
				var got []any
				var form string
				stuck, p := gGuard(func() { form, got = run() })
				if stuck || p != nil {
					govFail(t, "%s: run %d does not finish (panic: %v)", what, round, p)
					return
				}
				if r.late > 0 {
					govFail(t, "%s: the commands do not run concurrently", what)
					return
				}
				if want := map[bool]string{true: "single", false: []string{"batch", "sequence"}[kind%2]}[live == 1]; form != want || len(got) != live {
					govFail(t, "%s: run %d: %s of %d results for %d commands: %v", what, round, form, len(got), live, got)
					return
				}
				next, seen := 0, map[int]bool{}
				for k, g := range got {
					a, ok := g.(gAns)
					if !ok || a.n != round || spins[a.i] < 0 || seen[a.i] {
						govFail(t, "%s: run %d: result %d is %v; all: %v", what, round, k, g, got)
						return
					}
					seen[a.i] = true
					if kind%2 == 1 {
						for spins[next] < 0 {
							next++
						}
						if a.i != next || r.order[k] != a.i {
							govFail(t, "%s: run %d: result %d is that of command %d instead of %d; commands ran in the order %v", what, round, k, a.i, next, r.order)
							return
						}
						next++
					}
				}
				if kind%2 == 1 && r.overlap {
					govFail(t, "%s: run %d: a command started before the one before finished", what, round)
					return
				}
				for i, s := range spins {
					if s >= 0 && r.calls[i] != round || s < 0 && r.calls[i] != 0 {
						govFail(t, "%s: command %d was called %d times in %d runs", what, i, r.calls[i], round)
						return
					}
				}
			}
		}
	}
	govCases(cases, "lists of commands run as batch and sequence")
}

// ---- through the event loop ----

type gItem int
type gLoop struct {
	mu    *sync.Mutex
	got   *[]int
	total int
	init  Cmd
	done  chan struct{}
}

func (m gLoop) Init() Cmd { return m.init }
func (m gLoop) Update(msg Msg) (gLoop, Cmd) {
	switch v := msg.(type) {
	case gItem:
		m.mu.Lock()
		*m.got = append(*m.got, int(v))
		n := len(*m.got)
		m.mu.Unlock()
		if n == m.total {
			close(m.done)
		}
	case BatchMsg, SequenceMsg:
		m.mu.Lock()
		*m.got = append(*m.got, -1)
		m.mu.Unlock()
	}
	return m, nil
}
func (m gLoop) View() string { return "" }

// gTree is a random command tree over the items from..from+n; sequence: in order throughout
func gTree(rng interface{ Intn(int) int }, from, n int, seq bool, depth int) Cmd {
	var cs []Cmd
	for k := 0; k < n; {
		if depth > 0 && rng.Intn(4) == 0 {
			j := 1 + rng.Intn(n-k)
			cs = append(cs, gTree(rng, from+k, j, seq, depth-1))
			k += j
			continue
		}
		if rng.Intn(5) == 0 {
			cs = append(cs, nil)
		}
		i := from + k
		cs = append(cs, func() Msg {
			for s := i % 7; s > 0; s-- {
				runtime.Gosched()
			}
			return gItem(i)
		})
		k++
	}
	if seq || rng.Intn(3) == 0 {
		return Sequence(cs...)
	}
	return Batch(cs...)
}

func TestGovEventLoop(t *testing.T) {
	rng := govRand()
	n := govN(60, 600)
	for c := 0; c < n && !t.Failed(); c++ {
		total := 1 + rng.Intn(20)
		if c%6 == 1 {
			total = 90 + rng.Intn(220)
		}
		seq := rng.Intn(2) == 0
		start := rng.Intn(2) == 0
		m := gLoop{&sync.Mutex{}, &[]int{}, total, nil, make(chan struct{})}
		m.init = gTree(rng, 0, total, seq, 2)
		what := fmt.Sprintf("case %d: program started with a tree of %d commands (ordered: %v, Start: %v)", c, total, seq, start)
		p := New(m, WithOutput[gLoop](&bytes.Buffer{}), WithInput[gLoop](&bytes.Buffer{}))
		ended := make(chan struct{})
		if start {
			if err := p.Start(); err != nil {
				govFail(t, "%s: %v", what, err)
				return
			}
			close(ended)
		} else {
			go func() { _ = p.Run(); close(ended) }()
		}
		select {
		case <-m.done:
		case <-time.After(20 * time.Second):
			m.mu.Lock()
			govFail(t, "%s: only %d messages were delivered: %v", what, len(*m.got), *m.got)
			m.mu.Unlock()
			return
		}
		if c%8 == 0 {
			time.Sleep(5 * time.Millisecond) // anything delivered twice
		}
		_ = p.Send(QuitMsg{})
		<-ended
		m.mu.Lock()
		got := append([]int{}, *m.got...)
		m.mu.Unlock()
		seen := map[int]bool{}
		for k, v := range got {
			if v < 0 || seen[v] || seq && v != k || k >= total {
				govFail(t, "%s: message %d is %d: %v", what, k, v, got)
				return
			}
			seen[v] = true
		}
	}
	govCases(n, "command trees through the event loop")
}

// ---- conversion between the public and the internal messages ----

func gMsgTree(rng interface{ Intn(int) int }, depth int) (Msg, model2.Msg) {
	switch k := rng.Intn(9); {
	case k < 4 && depth > 0:
		var a []Msg
		var b []model2.Msg
		for i := rng.Intn(4); i > 0; i-- {
			x, y := gMsgTree(rng, depth-1)
			a, b = append(a, x), append(b, y)
		}
		if k < 2 {
			return BatchMsg{Messages: a}, model2.BatchMsg{Messages: b}
		}
		return SequenceMsg{Messages: a}, model2.SequenceMsg{Messages: b}
	case k == 4:
		return KeyMsg{Type: KeyType(k), Rune: 'x', Alt: true}, model2.KeyMsg{Type: model2.KeyType(k), Rune: 'x', Alt: true}
	case k == 5:
		x, y := rng.Intn(100), rng.Intn(100)
		return MouseMsg{X: x, Y: y, Ctrl: true}, model2.MouseMsg{X: x, Y: y, Ctrl: true}
	case k == 6:
		w := rng.Intn(100)
		return WindowSizeMsg{Width: w, Height: 3}, model2.WindowSizeMsg{Width: w, Height: 3}
	case k == 7:
		return QuitMsg{}, model2.QuitMsg{}
	}
	i := gItem(rng.Intn(1000))
	return i, i
}

func TestGovConvert(t *testing.T) {
	rng := govRand()
	n := govN(3000, 60000)
	for c := 0; c < n && !t.Failed(); c++ {
		pub, in := gMsgTree(rng, 3)
		if p := govTry(func() {
			if got := fmt.Sprintf("%#v", convertMsgToPublic(in)); got != fmt.Sprintf("%#v", pub) && len(got) > 0 && !gSame(convertMsgToPublic(in), pub) {
				govFail(t, "convertMsgToPublic(%#v) = %s", in, got)
			}
			if got := convertMsgToInternal(pub); !gSame(convertMsgToPublic(got), pub) || fmt.Sprintf("%T", got) != fmt.Sprintf("%T", in) {
				govFail(t, "convertMsgToInternal(%#v) = %#v", pub, got)
			}
			calls := 0
			cmd := convertCmdToInternal(func() Msg { calls++; return pub })
			if calls != 0 {
				govFail(t, "convertCmdToInternal runs the command")
			}
			if got := cmd(); calls != 1 || !gSame(convertMsgToPublic(got), pub) {
				govFail(t, "convertCmdToInternal: %d calls, result %#v for %#v", calls, got, pub)
			}
		}); p != nil {
			govFail(t, "conversion of %#v: panic %v", pub, p)
		}
	}
	if convertCmdToInternal(nil) != nil {
		govFail(t, "convertCmdToInternal(nil) is not nil")
	}
	govCases(n, "messages converted to internal and back")
}

// gSame: equal up to nil and empty lists
func gSame(a, b Msg) bool {
	var x, y []Msg
	switch m := a.(type) {
	case BatchMsg:
		o, ok := b.(BatchMsg)
		if !ok {
			return false
		}
		x, y = m.Messages, o.Messages
	case SequenceMsg:
		o, ok := b.(SequenceMsg)
		if !ok {
			return false
		}
		x, y = m.Messages, o.Messages
	default:
		return a == b
	}
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !gSame(x[i], y[i]) {
			return false
		}
	}
	return true
}
