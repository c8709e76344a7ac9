//gov:pkg components/progress
package progress_test

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"github.com/phoenix-tui/phoenix/components/progress"
	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/model"
	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/service"
	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/value"
	"github.com/phoenix-tui/phoenix/components/progress/internal/infrastructure"
	"github.com/phoenix-tui/phoenix/tea"
)

func gClamp(v int) int {
	if v < 0 {
		return 0
	}
	if v > 100 {
		return 100
	}
	return v
}

func gBar(w, p int, f, e rune, label string, pct bool) string {
	n := w * p / 100
	s := strings.Repeat(string(f), n) + strings.Repeat(string(e), w-n)
	if label != "" {
		s = label + " " + s
	}
	if pct {
		s += " " + fmt.Sprintf("%03d%%", p)
	}
	return s
}

func TestGovBar(t *testing.T) {
	n := 0
	// every percentage at many widths
	for w := -2; w <= govN(260, 2000); w++ {
		for p := -3; p <= 103; p++ {
			n++
			ww := w
			if ww < 1 {
				ww = 1
			}
			govStep(t, func() {
				v := progress.NewBarWithProgress(w, p).View()
				if want := gBar(ww, gClamp(p), '█', '░', "", false); v != want {
					govFail(t, "NewBarWithProgress(%d,%d).View() = %q want %q", w, p, v, want)
				}
			}, func() string { return fmt.Sprintf("NewBarWithProgress(%d,%d)", w, p) })
		}
	}
	govCases(n, "width x percentage")

	r := govRand()
	runes := []rune{'#', '.', '=', '█', 'é', '-'}
	hist := govN(3000, 60000)
	for h := 0; h < hist; h++ {
		w := r.Intn(60) - 3
		ww := w
		if ww < 1 {
			ww = 1
		}
		pct, f, e, label, show := 0, '█', '░', "", false
		b := *progress.NewBar(w)
		log := []string{fmt.Sprintf("NewBar(%d)", w)}
		type snap struct {
			b    progress.Bar
			view string
		}
		var old []snap
		ctx := func() string { return strings.Join(log, ".") }
		for k := 0; k < 8; k++ {
			old = append(old, snap{b, gBar(ww, pct, f, e, label, show)})
			x := r.Intn(250) - 120
			switch r.Intn(9) {
			case 0, 1:
				govStep(t, func() { b = b.SetProgress(x) }, ctx)
				pct = gClamp(x)
				log = append(log, fmt.Sprintf("SetProgress(%d)", x))
			case 2, 3:
				govStep(t, func() { b = b.Increment(x / 2) }, ctx)
				pct = gClamp(pct + x/2)
				log = append(log, fmt.Sprintf("Increment(%d)", x/2))
			case 4, 5:
				govStep(t, func() { b = b.Decrement(x / 2) }, ctx)
				pct = gClamp(pct - x/2)
				log = append(log, fmt.Sprintf("Decrement(%d)", x/2))
			case 6:
				f = runes[r.Intn(len(runes))]
				b = b.FillChar(f)
				log = append(log, fmt.Sprintf("FillChar(%q)", f))
			case 7:
				e = runes[r.Intn(len(runes))]
				b = b.EmptyChar(e)
				log = append(log, fmt.Sprintf("EmptyChar(%q)", e))
			case 8:
				label = []string{"", "L", "Load ü"}[r.Intn(3)]
				show = r.Intn(2) == 0
				b = b.Label(label).ShowPercent(show)
				log = append(log, fmt.Sprintf("Label(%q).ShowPercent(%v)", label, show))
			}
			if r.Intn(5) == 0 {
				b, _ = b.Update(tea.TickMsg{})
				log = append(log, "Update(Tick)")
			}
			govStep(t, func() {
				if b.Progress() != pct || b.IsComplete() != (pct == 100) {
					govFail(t, "%s: Progress()=%d IsComplete()=%v, want %d", ctx(), b.Progress(), b.IsComplete(), pct)
				}
				if want := gBar(ww, pct, f, e, label, show); b.View() != want {
					govFail(t, "%s: View()=%q want %q", ctx(), b.View(), want)
				}
			}, ctx)
		}
		for _, o := range old {
			if o.b.View() != o.view {
				govFail(t, "%s: an earlier bar changed to %q, was %q", ctx(), o.b.View(), o.view)
			}
		}
	}
	govCases(hist, "bar histories")

	// the model bar and the service directly
	s := service.NewRenderService()
	for w := -2; w < 130; w++ {
		for p := -2; p <= 102; p++ {
			want := 0
			if w > 0 {
				want = w * gClamp(p) / 100
			}
			if got := s.CalculateFilledWidth(w, p); got != want {
				govFail(t, "CalculateFilledWidth(%d,%d)=%d want %d", w, p, got, want)
			}
		}
	}
	// extreme deltas and values
	for v := 0; v <= 100; v += 7 {
		for _, d := range []int{math.MaxInt, math.MaxInt - 50, math.MinInt, math.MinInt + 70} {
			want := 100
			if d < 0 {
				want = 0
			}
			if a := value.NewPercentage(v).Add(d).Value(); a != want {
				govFail(t, "NewPercentage(%d).Add(%d)=%d want %d", v, d, a, want)
			}
			if a := value.NewPercentage(v).Subtract(d).Value(); a != 100-want {
				govFail(t, "NewPercentage(%d).Subtract(%d)=%d want %d", v, d, a, 100-want)
			}
		}
	}
	mb := *model.NewBarWithPercentage(10, 40)
	if x := mb.SetComplete(); x.Percentage() != 100 || mb.Percentage() != 40 || x.Width() != 10 {
		govFail(t, "SetComplete: %d, original %d", x.Percentage(), mb.Percentage())
	}
	if x := mb.Reset(); x.Percentage() != 0 || mb.Percentage() != 40 {
		govFail(t, "Reset: %d", x.Percentage())
	}
	for v := -130; v < 240; v++ {
		p := value.NewPercentage(v)
		if p.Value() != gClamp(v) || p.IsComplete() != (v >= 100) {
			govFail(t, "NewPercentage(%d).Value()=%d", v, p.Value())
		}
		for d := -230; d < 240; d += 3 {
			if a := p.Add(d).Value(); a != gClamp(gClamp(v)+d) {
				govFail(t, "NewPercentage(%d).Add(%d)=%d", v, d, a)
			}
			if a := p.Subtract(d).Value(); a != gClamp(gClamp(v)-d) {
				govFail(t, "NewPercentage(%d).Subtract(%d)=%d", v, d, a)
			}
		}
	}
}

func TestGovSpinner(t *testing.T) {
	r := govRand()
	n := 0
	names := append(infrastructure.AvailableStyles(), "", "nope", "DOTS")
	for _, name := range names {
		st := infrastructure.GetSpinnerStyle(name)
		if st == nil || st.FrameCount() < 1 || st.FPS() < 1 {
			govFail(t, "GetSpinnerStyle(%q) is no valid style", name)
			continue
		}
		frames := st.Frames()
		sp := *progress.NewSpinner(name)
		for k := 0; k < 3*len(frames)+2; k++ {
			n++
			old := sp
			govStep(t, func() {
				if v := sp.View(); v != frames[k%len(frames)] {
					govFail(t, "NewSpinner(%q) after %d ticks shows %q want %q", name, k, v, frames[k%len(frames)])
				}
				x, _ := sp.Update(tea.KeyMsg{Type: tea.KeyUp})
				if x.View() != sp.View() {
					govFail(t, "NewSpinner(%q): a key changed the frame", name)
				}
				sp, _ = sp.Update(tea.TickMsg{Time: time.Unix(0, 0)})
				if old.View() != frames[k%len(frames)] {
					govFail(t, "NewSpinner(%q): ticking changed the earlier spinner", name)
				}
			}, func() string { return name })
			if k == 2 {
				sp = sp.Label("w")
				if sp.View() != frames[3%len(frames)]+" w" {
					govFail(t, "NewSpinner(%q).Label(w).View()=%q", name, sp.View())
				}
				sp = sp.Label("")
			}
		}
	}
	for h := 0; h < govN(2000, 20000); h++ {
		n++
		c := r.Intn(6)
		fr := make([]string, c)
		for i := range fr {
			fr[i] = fmt.Sprint("f", i)
		}
		fps := r.Intn(7) - 3
		st := value.NewSpinnerStyle(fr, fps)
		want := append([]string(nil), fr...)
		if c == 0 {
			want = []string{"•"}
		}
		for i := range fr {
			fr[i] = "changed"
		}
		if fps <= 0 {
			fps = 10
		}
		if st.FPS() != fps || st.FrameCount() != len(want) {
			govFail(t, "NewSpinnerStyle: fps %d count %d, want %d %d", st.FPS(), st.FrameCount(), fps, len(want))
			continue
		}
		got := st.Frames()
		for i := range got {
			got[i] = "mine"
		}
		m := *model.NewSpinner(st)
		for k := 0; k < 15; k++ {
			govStep(t, func() {
				if m.FrameIndex() != k%len(want) || m.CurrentFrame() != want[k%len(want)] || st.GetFrame(k) != want[k%len(want)] {
					govFail(t, "spinner of %d frames after %d ticks: index %d frame %q", len(want), k, m.FrameIndex(), m.CurrentFrame())
				}
				if x := m.Reset(); x.FrameIndex() != 0 {
					govFail(t, "Reset: index %d", x.FrameIndex())
				}
				m = m.NextFrame()
			}, func() string { return fmt.Sprintf("spinner of %d frames", len(want)) })
		}
	}
	m := *model.NewSpinner(nil)
	if m.NextFrame().CurrentFrame() == "" {
		govFail(t, "NewSpinner(nil) shows nothing")
	}
	govCases(n, "spinner steps")
}
