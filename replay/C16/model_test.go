//gov:pkg render/internal/domain/service
package service_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/render/internal/domain/model"
	"github.com/phoenix-tui/phoenix/render/internal/domain/service"
	"github.com/phoenix-tui/phoenix/render/internal/domain/value"
)

func gStyle(r *rand.Rand) value.Style {
	s := value.NewStyle()
	if r.Intn(3) == 0 {
		s = s.WithFg(value.NewColor(uint8(r.Intn(3)), uint8(r.Intn(256)), 7))
	}
	if r.Intn(3) == 0 {
		s = s.WithBg(value.NewColor(uint8(r.Intn(256)), uint8(r.Intn(3)), 9))
	}
	s = s.WithBold(r.Intn(3) == 0).WithItalic(r.Intn(5) == 0).WithUnderline(r.Intn(5) == 0).WithReverse(r.Intn(5) == 0)
	return s.WithDim(r.Intn(5) == 0).WithBlink(r.Intn(5) == 0).WithHidden(r.Intn(5) == 0).WithStrike(r.Intn(5) == 0)
}

// every attribute combination gives exactly its SGR codes, in order
func TestGovStyleText(t *testing.T) {
	n := 0
	for m := 0; m < 1<<10; m++ {
		s := value.NewStyle()
		var want []string
		if m&1 != 0 {
			s = s.WithFg(value.NewColor(uint8(m%251), 200, 255))
			want = append(want, fmt.Sprintf("38;2;%d;200;255", m%251))
		}
		if m&2 != 0 {
			s = s.WithBg(value.NewColor(1, uint8(m%250), 0))
			want = append(want, fmt.Sprintf("48;2;1;%d;0", m%250))
		}
		for i, f := range []struct {
			code string
			set  func(value.Style, bool) value.Style
		}{{"1", value.Style.WithBold}, {"2", value.Style.WithDim}, {"3", value.Style.WithItalic}, {"4", value.Style.WithUnderline}, {"5", value.Style.WithBlink}, {"7", value.Style.WithReverse}, {"8", value.Style.WithHidden}, {"9", value.Style.WithStrike}} {
			if m&(4<<i) != 0 {
				s = f.set(s, true)
				want = append(want, f.code)
			}
		}
		w := ""
		if len(want) > 0 {
			w = "\x1b[" + strings.Join(want, ";") + "m"
		}
		if got := s.ToANSI(); got != w {
			govFail(t, "style ToANSI: attribute set %b gives %q, want %q", m, got, w)
		}
		n++
	}
	govCases(n, "style attribute combinations")
}

type gCell struct {
	ch rune
	st value.Style
	w  int
}
type gGrid [][]gCell

func gBlank(w, h int) gGrid {
	g := make(gGrid, max(h, 0))
	for y := range g {
		g[y] = make([]gCell, max(w, 0))
		for x := range g[y] {
			g[y][x] = gCell{' ', value.NewStyle(), 1}
		}
	}
	return g
}
func (g gGrid) copyOf() gGrid {
	o := make(gGrid, len(g))
	for y := range g {
		o[y] = append([]gCell(nil), g[y]...)
	}
	return o
}
func gSame(a gCell, c model.Cell) bool {
	return a.ch == c.Char() && a.w == c.Width() && a.st.Equals(c.Style())
}
func gCheck(b *model.Buffer, g gGrid, w int) string {
	if b.Height() != len(g) || b.Width() != w {
		return fmt.Sprintf("size %dx%d, want %dx%d", b.Width(), b.Height(), w, len(g))
	}
	for y := range g {
		for x := range g[y] {
			if c := b.Get(value.NewPosition(x, y)); !gSame(g[y][x], c) {
				return fmt.Sprintf("cell (%d,%d) is %q/%d, want %q/%d", x, y, c.Char(), c.Width(), g[y][x].ch, g[y][x].w)
			}
		}
	}
	return ""
}

// buffers against a plain grid; diffs against a direct comparison
func TestGovBuffers(t *testing.T) {
	n := govN(1500, 20000)
	r := govRand()
	sv, op := service.NewDiffService(), service.NewOptimizeService()
	for it := 0; it < n && govFails < 5; it++ {
		w, h := r.Intn(7)-1, r.Intn(6)-1
		b := model.NewBuffer(w, h)
		g := gBlank(w, h)
		w = max(w, 0)
		var hist []string
		var olds []*model.Buffer
		var oldg []gGrid
		var oldw []int
		for s := 0; s < 12; s++ {
			st := gStyle(r)
			x, y := r.Intn(9)-1, r.Intn(8)-1
			switch k := r.Intn(9); k {
			case 0, 1:
				ch := rune('a' + r.Intn(4))
				hist = append(hist, fmt.Sprintf("Set(%d,%d,%q)", x, y, ch))
				if !govStep(t, func() { b.Set(value.NewPosition(x, y), model.NewCellWithWidth(ch, st, 1)) }, func() string { return fmt.Sprint(hist) }) {
					break
				}
				if x >= 0 && y >= 0 && x < w && y < len(g) {
					g[y][x] = gCell{ch, st, 1}
				}
			case 2:
				hist = append(hist, "Clear")
				b.Clear()
				g = gBlank(w, len(g))
			case 3:
				hist = append(hist, "Fill")
				b.Fill('#', st)
				for y := range g {
					for x := range g[y] {
						g[y][x] = gCell{'#', st, 1}
					}
				}
			case 4, 5:
				text := strings.Repeat("xyzé", 3)[:r.Intn(10)]
				if strings.HasSuffix(text, "\xc3") {
					text = text[:len(text)-1]
				}
				line := k == 5
				hist = append(hist, fmt.Sprintf("SetString(line=%v,%d,%d,%q)", line, x, y, text))
				if line {
					x = 0
				}
				var wrote int
				if !govStep(t, func() {
					if line {
						b.SetLine(y, text, st)
					} else {
						wrote = b.SetString(value.NewPosition(x, y), text, st)
					}
				}, func() string { return fmt.Sprint(hist) }) {
					break
				}
				want := 0
				if y >= 0 && y < len(g) && x >= 0 {
					if line {
						for i := range g[y] {
							g[y][i] = gCell{' ', value.NewStyle(), 1}
						}
					}
					for _, ch := range text {
						if x >= w {
							break
						}
						g[y][x] = gCell{ch, st, 1}
						x++
						want++
					}
				}
				if !line && wrote != want {
					govFail(t, "%v: SetString reports %d cells, want %d", hist, wrote, want)
				}
			case 6:
				olds, oldg, oldw = append(olds, b), append(oldg, g.copyOf()), append(oldw, w)
				hist = append(hist, "Clone")
				b = b.Clone()
			case 7:
				nw, nh := r.Intn(8)-1, r.Intn(7)-1
				olds, oldg, oldw = append(olds, b), append(oldg, g.copyOf()), append(oldw, w)
				hist = append(hist, fmt.Sprintf("Resize(%d,%d)", nw, nh))
				if !govStep(t, func() { b = b.Resize(nw, nh) }, func() string { return fmt.Sprint(hist) }) {
					break
				}
				ng := gBlank(nw, nh)
				for y := 0; y < len(ng) && y < len(g); y++ {
					copy(ng[y], g[y])
				}
				g, w = ng, max(nw, 0)
			case 8:
				var ps []value.Position
				var cs []model.Cell
				for i := 0; i < 3; i++ {
					px, py := r.Intn(8)-1, r.Intn(7)-1
					ps, cs = append(ps, value.NewPosition(px, py)), append(cs, model.NewCellWithWidth(rune('0'+i), st, 1))
					if px >= 0 && py >= 0 && px < w && py < len(g) {
						g[py][px] = gCell{rune('0' + i), st, 1}
					}
				}
				hist = append(hist, "SetCells")
				b.SetCells(ps, cs)
			}
			if d := gCheck(b, g, w); d != "" {
				govFail(t, "buffer %dx%d after %v: %s", w, len(g), hist, d)
				break
			}
			empty := true
			for y := range g {
				line := b.GetLine(y)
				for x := range g[y] {
					empty = empty && g[y][x].ch == ' ' && g[y][x].st.IsEmpty()
					if !gSame(g[y][x], line[x]) {
						govFail(t, "after %v: GetLine(%d)[%d] differs from the buffer", hist, y, x)
					}
				}
				if len(line) > 0 {
					line[0] = model.NewCell('!', st)
				}
			}
			if d := gCheck(b, g, w); d != "" {
				govFail(t, "after %v: writing to a returned line changes the buffer: %s", hist, d)
				break
			}
			if b.IsEmpty() != empty {
				govFail(t, "after %v: IsEmpty is %v", hist, b.IsEmpty())
			}
			for i := range olds {
				if d := gCheck(olds[i], oldg[i], oldw[i]); d != "" {
					govFail(t, "after %v: an earlier buffer changed: %s", hist, d)
				}
			}
			if len(olds) > 0 {
				o := olds[r.Intn(len(olds))]
				gDiff(t, sv, op, o, b, hist)
			}
		}
	}
	govCases(n, "buffer histories against a grid model")
}

func gDiff(t *testing.T, sv *service.DiffService, op *service.OptimizeService, o, b *model.Buffer, hist []string) {
	ops := sv.Diff(o, b)
	same := o.Width() == b.Width() && o.Height() == b.Height()
	var want []service.DiffOp
	for y := 0; y < b.Height(); y++ {
		for x := 0; x < b.Width(); x++ {
			p := value.NewPosition(x, y)
			c := b.Get(p)
			if same && !o.Get(p).Equals(c) || !same && !c.IsEmpty() {
				want = append(want, service.DiffOp{Type: service.OpTypeSet, Position: p, Cell: c})
			}
		}
	}
	eq := func(a []service.DiffOp) bool {
		if len(a) != len(want) {
			return false
		}
		for i := range a {
			if a[i].Type != want[i].Type || a[i].Position != want[i].Position || !a[i].Cell.Equals(want[i].Cell) {
				return false
			}
		}
		return true
	}
	if !eq(ops) {
		govFail(t, "after %v: the diff has %d operations, want %d (or one differs)", hist, len(ops), len(want))
	}
	if sv.HasChanges(o, b) != (!same || len(want) > 0) || sv.CountChanges(o, b) != len(want) {
		govFail(t, "after %v: HasChanges %v, CountChanges %d, want %d changes", hist, sv.HasChanges(o, b), sv.CountChanges(o, b), len(want))
	}
	for i, f := range []func([]service.DiffOp) []service.DiffOp{sv.Optimize, op.BatchStyles, op.OptimizeCursorMoves, op.MergeAdjacentOps, func(a []service.DiffOp) []service.DiffOp { return op.RemoveRedundant(a, value.NewStyle()) }} {
		if !eq(f(ops)) {
			govFail(t, "after %v: optimisation %d drops or changes an operation", hist, i)
		}
	}
	for y := 0; y < b.Height(); y++ {
		if y < o.Height() && o.Width() == b.Width() {
			k := 0
			for _, d := range sv.DiffLine(o.GetLine(y), b.GetLine(y), y) {
				for k < b.Width() && o.GetLine(y)[k].Equals(b.GetLine(y)[k]) {
					k++
				}
				if d.Position != value.NewPosition(k, y) || k >= b.Width() || !d.Cell.Equals(b.GetLine(y)[k]) {
					govFail(t, "after %v: DiffLine(%d) gives %v, want column %d", hist, y, d.Position, k)
					break
				}
				k++
			}
			for ; k < b.Width(); k++ {
				if !o.GetLine(y)[k].Equals(b.GetLine(y)[k]) {
					govFail(t, "after %v: DiffLine(%d) misses column %d", hist, y, k)
				}
			}
		}
	}
}
