//gov:pkg layout
package layout_test

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/layout"
	"github.com/phoenix-tui/phoenix/layout/internal/domain/model"
	"github.com/phoenix-tui/phoenix/layout/internal/domain/service"
	"github.com/phoenix-tui/phoenix/layout/internal/domain/value"
)

var g19 = []int{-5, -1, 0, 1, 2, 3, 7, 10, 80}

func g19neg(x int) int {
	if x < 0 {
		return -1
	}
	return x
}
func g19pos(x int) int {
	if x < 0 {
		return 0
	}
	return x
}
func g19fit(x, exact, lo, hi int) int {
	if exact >= 0 {
		return exact
	}
	if lo >= 0 && x < lo {
		x = lo
	}
	if hi >= 0 && x > hi {
		x = hi
	}
	return x
}
func g19place(how, c, p int) int {
	switch {
	case c >= p:
		return 0
	case how == 1:
		return (p - c) / 2
	case how == 2:
		return p - c
	}
	return 0
}

func TestGovSize(t *testing.T) {
	n := 0
	for _, ex := range g19 {
		for _, lo := range g19 {
			for _, hi := range g19 {
				if lo >= 0 && hi >= 0 && lo > hi {
					continue
				}
				s := value.NewSize(ex, ex+1, lo, hi, lo, hi)
				if s.Width() != g19neg(ex) || s.Height() != g19neg(ex+1) || s.MinWidth() != g19neg(lo) || s.MaxWidth() != g19neg(hi) || s.MinHeight() != g19neg(lo) || s.MaxHeight() != g19neg(hi) {
					govFail(t, "NewSize(%d,%d,%d,%d,%d,%d)=%+v", ex, ex+1, lo, hi, lo, hi, s)
				}
				if s.HasWidth() != (ex >= 0) || s.HasHeight() != (ex+1 >= 0) || s.HasMinWidth() != (lo >= 0) || s.HasMaxWidth() != (hi >= 0) || s.HasMinHeight() != (lo >= 0) || s.HasMaxHeight() != (hi >= 0) || s.IsUnconstrained() != (ex < 0 && ex+1 < 0 && lo < 0 && hi < 0) {
					govFail(t, "Has*/IsUnconstrained of %+v wrong", s)
				}
				for _, w := range g19 {
					for _, h := range g19 {
						n++
						rw, rh := s.Constrain(w, h)
						if rw != g19fit(w, ex, lo, hi) || rh != g19fit(h, ex+1, lo, hi) {
							govFail(t, "NewSize(%d,%d,%d,%d,%d,%d).Constrain(%d,%d)=%d,%d", ex, ex+1, lo, hi, lo, hi, w, h, rw, rh)
						}
					}
					u := value.NewSizeUnconstrained().WithMinWidth(lo).WithMaxWidth(hi).WithMinHeight(lo).WithMaxHeight(hi)
					for k, v := range []value.Size{u.WithWidth(w), u.WithHeight(w)} {
						want := value.NewSize(-1, -1, lo, hi, lo, hi)
						if k == 0 {
							want = value.NewSize(w, -1, lo, hi, lo, hi)
						} else {
							want = value.NewSize(-1, w, lo, hi, lo, hi)
						}
						if v != want {
							govFail(t, "setter %d with %d of %+v: %+v, want %+v", k, w, u, v, want)
						}
					}
				}
			}
		}
	}
	for _, a := range g19 {
		for _, b := range g19 {
			if s := value.NewSizeExact(a, b); s != value.NewSize(a, b, -1, -1, -1, -1) {
				govFail(t, "NewSizeExact(%d,%d)=%+v", a, b, s)
			}
		}
	}
	govCases(n, "constrained sizes")
}

func TestGovPlace(t *testing.T) {
	n := 0
	al := []int{0, 1, 2}
	ms := service.NewMeasureService()
	ls := service.NewLayoutService(ms)
	for _, h := range al {
		for _, v := range al {
			a := value.NewAlignment(value.HorizontalAlignment(h), value.VerticalAlignment(v))
			if int(a.Horizontal()) != h || int(a.Vertical()) != v || a.IsCenter() != (h == 1 && v == 1) || a.IsDefault() != (h == 0 && v == 0) {
				govFail(t, "alignment %d,%d reads back as %v", h, v, a)
			}
			for _, h2 := range al {
				if b := a.WithHorizontal(value.HorizontalAlignment(h2)); int(b.Horizontal()) != h2 || int(b.Vertical()) != v || a.Equals(b) != (h == h2) {
					govFail(t, "WithHorizontal(%d) of %v: %v", h2, a, b)
				}
				if b := a.WithVertical(value.VerticalAlignment(h2)); int(b.Vertical()) != h2 || int(b.Horizontal()) != h || a.Equals(b) != (v == h2) {
					govFail(t, "WithVertical(%d) of %v: %v", h2, a, b)
				}
			}
			for _, cw := range g19 {
				for _, pw := range g19 {
					n++
					if x := value.CalculateHorizontalOffset(value.HorizontalAlignment(h), cw, pw); x != g19place(h, cw, pw) {
						govFail(t, "CalculateHorizontalOffset(%d,%d,%d)=%d", h, cw, pw, x)
					}
					if y := value.CalculateVerticalOffset(value.VerticalAlignment(v), cw, pw); y != g19place(v, cw, pw) {
						govFail(t, "CalculateVerticalOffset(%d,%d,%d)=%d", v, cw, pw, y)
					}
					x, y := a.CalculateOffsets(cw, cw+1, pw, pw+3)
					if x != g19place(h, cw, pw) || y != g19place(v, cw+1, pw+3) {
						govFail(t, "%v.CalculateOffsets(%d,%d,%d,%d)=%d,%d", a, cw, cw+1, pw, pw+3, x, y)
					}
					if cw >= 0 && pw >= 0 {
						p := ls.CalculatePosition(value.NewSizeExact(cw, cw+1), value.NewSizeExact(pw, pw+3), a)
						if p.X() != g19place(h, cw, pw) || p.Y() != g19place(v, cw+1, pw+3) {
							govFail(t, "CalculatePosition(%d in %d, %v)=%v", cw, pw, a, p)
						}
						for _, x0 := range g19 {
							c := ls.ClampPosition(value.NewPosition(x0, x0+2), value.NewSizeExact(cw, cw+1), value.NewSizeExact(pw, pw+3))
							lim := func(x, m int) int {
								x, m = g19pos(x), g19pos(m)
								if x > m {
									return m
								}
								return x
							}
							if c.X() != lim(x0, pw-cw) || c.Y() != lim(x0+2, pw+3-cw-1) {
								govFail(t, "ClampPosition(%d,%d; %dx%d in %dx%d)=%v", x0, x0+2, cw, cw+1, pw, pw+3, c)
							}
						}
					}
				}
			}
		}
	}
	for _, a := range g19 {
		for _, b := range g19 {
			n++
			p := value.NewPosition(a, b)
			if p.X() != g19pos(a) || p.Y() != g19pos(b) || p.IsOrigin() != (a <= 0 && b <= 0) {
				govFail(t, "NewPosition(%d,%d)=%v", a, b, p)
			}
			for _, c := range g19 {
				for _, d := range g19 {
					if q := p.Add(c, d); q != value.NewPosition(p.X()+c, p.Y()+d) {
						govFail(t, "%v.Add(%d,%d)=%v", p, c, d, q)
					}
					if q := p.Sub(c, d); q != value.NewPosition(p.X()-c, p.Y()-d) {
						govFail(t, "%v.Sub(%d,%d)=%v", p, c, d, q)
					}
					o := value.NewPosition(c, d)
					if q := p.Offset(o); q != value.NewPosition(p.X()+o.X(), p.Y()+o.Y()) || p.Equals(o) != (p == o) {
						govFail(t, "%v.Offset(%v)=%v", p, o, q)
					}
					abs := func(x int) int {
						if x < 0 {
							return -x
						}
						return x
					}
					if p.Distance(o) != abs(p.X()-o.X())+abs(p.Y()-o.Y()) {
						govFail(t, "%v.Distance(%v)=%d", p, o, p.Distance(o))
					}
					s := value.NewSpacing(a, b, c, d)
					w := [4]int{g19pos(a), g19pos(b), g19pos(c), g19pos(d)}
					if s.Top() != w[0] || s.Right() != w[1] || s.Bottom() != w[2] || s.Left() != w[3] || s.Horizontal() != w[1]+w[3] || s.Vertical() != w[0]+w[2] || s.IsZero() != (w == [4]int{}) {
						govFail(t, "NewSpacing(%d,%d,%d,%d)=%v", a, b, c, d, s)
					}
					u := value.NewSpacing(d, a, b, c)
					if q := s.Add(u); q != value.NewSpacing(w[0]+g19pos(d), w[1]+g19pos(a), w[2]+g19pos(b), w[3]+g19pos(c)) {
						govFail(t, "%v.Add(%v)=%v", s, u, q)
					}
					if q := s.Scale(a); q != value.NewSpacing(w[0]*g19pos(a), w[1]*g19pos(a), w[2]*g19pos(a), w[3]*g19pos(a)) {
						govFail(t, "%v.Scale(%d)=%v", s, a, q)
					}
					if s.WithTop(d) != value.NewSpacing(d, b, c, d) || s.WithRight(d) != value.NewSpacing(a, d, c, d) || s.WithBottom(a) != value.NewSpacing(a, b, a, d) || s.WithLeft(a) != value.NewSpacing(a, b, c, a) {
						govFail(t, "spacing setters of %v wrong", s)
					}
				}
			}
			if value.NewSpacingAll(a) != value.NewSpacing(a, a, a, a) || value.NewSpacingVH(a, b) != value.NewSpacing(a, b, a, b) {
				govFail(t, "NewSpacingAll(%d)/VH(%d,%d) wrong", a, a, b)
			}
		}
	}
	govCases(n, "offsets, positions and spacings")
}

var g19text = []string{"a", "hello", "世界", "a\nbb\nccc", "日\nlong line\n", "\n", "é\u0301x", " ", "ab\tc", "👍\n\nz"}

func g19lines(s string) (w, h int) {
	for _, l := range strings.Split(s, "\n") {
		h++
		if x := core.StringWidth(l); x > w {
			w = x
		}
	}
	return
}
func g19box(i int) (*model.Box, string) {
	r := rand.New(rand.NewSource(int64(i)))
	s := g19text[r.Intn(len(g19text))]
	pad := value.NewSpacing(r.Intn(3), r.Intn(3), r.Intn(3), r.Intn(3))
	mar := value.NewSpacing(r.Intn(3), r.Intn(3), r.Intn(3), r.Intn(3))
	sz := value.NewSizeUnconstrained()
	switch r.Intn(4) {
	case 0:
		sz = sz.WithMinWidth(r.Intn(20)).WithMaxHeight(r.Intn(20))
	case 1:
		lo := r.Intn(15)
		sz = sz.WithMinWidth(lo).WithMaxWidth(lo + r.Intn(5)).WithMinHeight(r.Intn(12))
	case 2:
		sz = sz.WithWidth(r.Intn(20))
	}
	b := model.NewBox(s).WithPadding(pad).WithMargin(mar).WithBorder(r.Intn(2) == 0).WithSize(sz).WithAlignment(value.NewAlignment(value.HorizontalAlignment(r.Intn(3)), value.VerticalAlignment(r.Intn(3))))
	return b, fmt.Sprintf("box(%q pad %v margin %v border %v size %v align %v)", s, pad, mar, b.HasBorder(), sz, b.Alignment())
}
func g19measure(b *model.Box) (int, int) {
	w, h := g19lines(b.Content())
	w += b.Padding().Left() + b.Padding().Right() + b.Margin().Left() + b.Margin().Right()
	h += b.Padding().Top() + b.Padding().Bottom() + b.Margin().Top() + b.Margin().Bottom()
	if b.HasBorder() {
		w += 4
		h += 4
	}
	s := b.Size()
	return g19fit(w, s.Width(), s.MinWidth(), s.MaxWidth()), g19fit(h, s.Height(), s.MinHeight(), s.MaxHeight())
}

func TestGovBox(t *testing.T) {
	ms := service.NewMeasureService()
	ls := service.NewLayoutService(ms)
	n := govN(3000, 30000)
	for i := 0; i < n; i++ {
		b, what := g19box(i)
		before := *b
		cw, ch := g19lines(b.Content())
		if w, h := ms.MeasureContent(b.Content()); w != cw || h != ch {
			govFail(t, "MeasureContent(%q)=%d,%d", b.Content(), w, h)
		}
		w, h := g19measure(b)
		if s := ms.Measure(b); s != value.NewSizeExact(w, h) {
			govFail(t, "Measure of %s = %v, want %dx%d", what, s, w, h)
		}
		e := 0
		if b.HasBorder() {
			e = 2
		}
		pw, ph := cw+b.Padding().Horizontal(), ch+b.Padding().Vertical()
		if b.ContentSize() != value.NewSizeExact(cw, ch) || b.PaddedSize() != value.NewSizeExact(pw, ph) || b.BorderedSize() != value.NewSizeExact(pw+e, ph+e) || b.TotalSize() != value.NewSizeExact(pw+e+b.Margin().Horizontal(), ph+e+b.Margin().Vertical()) {
			govFail(t, "sizes of %s: %v %v %v %v", what, b.ContentSize(), b.PaddedSize(), b.BorderedSize(), b.TotalSize())
		}
		W, H := i%60, i%40
		p := ls.Layout(b, value.NewSizeExact(W, H))
		if p.X() != g19place(int(b.Alignment().Horizontal()), w, W) || p.Y() != g19place(int(b.Alignment().Vertical()), h, H) {
			govFail(t, "Layout of %s in %dx%d at %v", what, W, H, p)
		}
		// each setter changes one attribute and leaves the receiver alone
		d := []*model.Box{b.WithContent("q"), b.WithPadding(value.NewSpacingAll(9)), b.WithMargin(value.NewSpacingAll(8)), b.WithBorder(!b.HasBorder()), b.WithSize(value.NewSizeExact(3, 4)), b.WithAlignment(value.NewAlignment(2, 1))}
		for k, x := range d {
			same := []bool{x.Content() == b.Content(), x.Padding() == b.Padding(), x.Margin() == b.Margin(), x.HasBorder() == b.HasBorder(), x.Size() == b.Size(), x.Alignment() == b.Alignment()}
			for j := range same {
				if j != k && !same[j] {
					govFail(t, "setter %d of %s changed attribute %d", k, what, j)
				}
			}
		}
		if d[0].Content() != "q" || d[1].Padding() != value.NewSpacingAll(9) || d[2].Margin() != value.NewSpacingAll(8) || d[3].HasBorder() == b.HasBorder() || d[4].Size() != value.NewSizeExact(3, 4) || d[5].Alignment() != value.NewAlignment(2, 1) {
			govFail(t, "a setter of %s does not read back", what)
		}
		if !reflect.DeepEqual(before, *b) {
			govFail(t, "%s changed in place", what)
		}
		// a bordered box is drawn as a rectangle (bounded check only)
		if b.HasBorder() && !strings.Contains(b.Content(), "\t") {
			out := strings.Split(service.NewRenderService().Render(b), "\n")
			m := b.Margin()
			iw := cw + b.Padding().Horizontal() + 2
			if len(out) != ch+b.Padding().Vertical()+2+m.Vertical() {
				govFail(t, "%s drawn with %d rows", what, len(out))
			}
			for _, l := range out {
				if core.StringWidth(l) != iw+2+m.Horizontal() {
					govFail(t, "%s: row %q is %d wide, want %d", what, l, core.StringWidth(l), iw+2+m.Horizontal())
				}
			}
		}
	}
	govCases(n, "boxes")
}

func TestGovTree(t *testing.T) {
	ms := service.NewMeasureService()
	ls := service.NewLayoutService(ms)
	var build func(i, depth int) *model.Node
	build = func(i, depth int) *model.Node {
		b, _ := g19box(i)
		nd := model.NewNode(b)
		if depth > 0 {
			for k := 0; k < i%4; k++ {
				nd = nd.AddChild(build(i*5+k+1, depth-1))
			}
		}
		return nd
	}
	var check func(in, out *model.Node, W, H, dy int)
	check = func(in, out *model.Node, W, H, dy int) {
		w, h := g19measure(in.Box())
		x, y := g19place(int(in.Box().Alignment().Horizontal()), w, W), g19place(int(in.Box().Alignment().Vertical()), h, H)+dy
		if out.Box() != in.Box() || out.Position() != value.NewPosition(x, y) || out.ChildCount() != in.ChildCount() {
			govFail(t, "node %v in %dx%d+%d laid out at %v, want %d,%d", in.Box(), W, H, dy, out.Position(), x, y)
			return
		}
		cy := 0
		for i, c := range in.Children() {
			check(c, out.Children()[i], g19neg(W), g19neg(H-cy), cy)
			_, ch := g19measure(c.Box())
			cy += ch
		}
	}
	n := govN(300, 3000)
	for i := 0; i < n; i++ {
		nd := build(i, 2)
		W, H := i%70, i%50
		check(nd, ls.LayoutNode(nd, value.NewSizeExact(W, H)), W, H, 0)
		for k := 0; k < nd.ChildCount(); k++ {
			kids := nd.Children()
			r := nd.RemoveChild(k)
			want := append(append([]*model.Node{}, kids[:k]...), kids[k+1:]...)
			if !reflect.DeepEqual(r.Children(), want) || !reflect.DeepEqual(nd.Children(), kids) {
				govFail(t, "RemoveChild(%d) of %d children", k, len(kids))
			}
		}
		if nd.ClearChildren().ChildCount() != 0 {
			govFail(t, "ClearChildren leaves children")
		}
	}
	_ = layout.NewBox("x")
	govCases(n, "trees")
}
