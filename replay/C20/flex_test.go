//gov:pkg layout
package layout_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/layout"
	"github.com/phoenix-tui/phoenix/layout/internal/domain/model"
	"github.com/phoenix-tui/phoenix/layout/internal/domain/service"
	"github.com/phoenix-tui/phoenix/layout/internal/domain/value"
)

var g20text = []string{"a", "hello", "世界", "a\nbb\nccc", "日\nlong", "é\u0301x", "👍z", "12345678901234567890"}

func g20box(r *rand.Rand) *layout.Box {
	b := layout.NewBox(g20text[r.Intn(len(g20text))])
	if r.Intn(3) == 0 {
		b.Padding(r.Intn(2), r.Intn(2), r.Intn(2), r.Intn(2))
	}
	if r.Intn(4) == 0 {
		b.Border()
	}
	if r.Intn(3) == 0 {
		b.MinWidth(r.Intn(12))
	}
	if r.Intn(5) == 0 {
		b.MaxHeight(1 + r.Intn(9))
	}
	return b
}

func TestGovFlex(t *testing.T) {
	ms := service.NewMeasureService()
	fs := service.NewFlexboxLayoutService(ms)
	n := govN(4000, 40000)
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(int64(i)))
		c := model.NewFlexContainer(value.FlexDirection(r.Intn(2))).WithGap(r.Intn(4)).WithJustifyContent(value.JustifyContent(r.Intn(4))).WithAlignItems(value.AlignItems(r.Intn(4)))
		k := r.Intn(6)
		for j := 0; j < k; j++ {
			c = c.AddItem(model.NewNode(g20box(r).Domain()))
		}
		W, H := r.Intn(90), r.Intn(40)
		in := c.Items()
		out := fs.Layout(c, W, H)
		what := fmt.Sprintf("case %d: %v in %dx%d", i, c, W, H)
		if out.ItemCount() != k || out.Direction() != c.Direction() || out.Gap() != c.Gap() || out.JustifyContent() != c.JustifyContent() || out.AlignItems() != c.AlignItems() {
			govFail(t, "%s: container attributes changed: %v", what, out)
			continue
		}
		row := c.Direction() == value.FlexDirectionRow
		pick := func(x, y int) (int, int) {
			if row {
				return x, y
			}
			return y, x
		}
		M, C := pick(W, H)
		var main, cross []int
		total := c.Gap() * (k - 1)
		for _, it := range in {
			s := ms.Measure(it.Box())
			m, x := pick(s.Width(), s.Height())
			main, cross = append(main, m), append(cross, x)
			total += m
		}
		spare := M - total
		if spare < 0 {
			spare = 0
		}
		pos, add := 0, c.Gap()
		switch c.JustifyContent() {
		case value.JustifyContentEnd:
			pos = spare
		case value.JustifyContentCenter:
			pos = spare / 2
		case value.JustifyContentSpaceBetween:
			if k > 1 {
				add += spare / (k - 1)
			}
		}
		for j, it := range out.Items() {
			if it.Box() != in[j].Box() || in[j].Position() != value.Origin() {
				govFail(t, "%s: item %d is not the one added, or the original moved", what, j)
			}
			x := 0
			switch c.AlignItems() {
			case value.AlignItemsEnd:
				x = C - cross[j]
			case value.AlignItemsCenter:
				x = (C - cross[j]) / 2
			}
			if x < 0 {
				x = 0
			}
			a, b := pick(it.Position().X(), it.Position().Y())
			if a != pos || b != x {
				govFail(t, "%s: item %d at main %d cross %d, want %d %d", what, j, a, b, pos, x)
			}
			pos += main[j] + add
		}
		for j := 0; j < k; j++ {
			rm := c.RemoveItem(j).Items()
			for q, it := range rm {
				w := in[q]
				if q >= j {
					w = in[q+1]
				}
				if it != w {
					govFail(t, "RemoveItem(%d) of %d", j, k)
				}
			}
			if len(rm) != k-1 || c.ItemCount() != k {
				govFail(t, "RemoveItem(%d) of %d leaves %d (original %d)", j, k, len(rm), c.ItemCount())
			}
		}
	}
	govCases(n, "flex containers laid out")
}

// bounded: what Render draws is a containerWidth x containerHeight block with every item at its place
func TestGovRender(t *testing.T) {
	n := govN(3000, 30000)
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(int64(i)))
		f := layout.Row()
		if r.Intn(2) == 0 {
			f = layout.Column()
		}
		f.Gap(r.Intn(3))
		switch r.Intn(4) {
		case 0:
			f.JustifyEnd()
		case 1:
			f.JustifyCenter()
		case 2:
			f.JustifySpaceBetween()
		}
		switch r.Intn(4) {
		case 0:
			f.AlignEnd()
		case 1:
			f.AlignCenter()
		case 2:
			f.AlignStart()
		}
		k := r.Intn(5)
		for j := 0; j < k; j++ {
			f.AddRaw(g20text[r.Intn(len(g20text))])
		}
		W, H := r.Intn(50), r.Intn(12)
		out := f.Render(W, H)
		rows := strings.Split(out, "\n")
		if H == 0 {
			if out != "" {
				govFail(t, "case %d: Render(%d,0)=%q", i, W, out)
			}
			continue
		}
		if len(rows) != H {
			govFail(t, "case %d: %d rows, want %d", i, len(rows), H)
			continue
		}
		for _, l := range rows {
			if core.StringWidth(l) != W {
				govFail(t, "case %d: row %q is %d wide, want %d", i, l, core.StringWidth(l), W)
			}
		}
		lay := service.NewFlexboxLayoutService(service.NewMeasureService()).Layout(f.Domain(), W, H)
		for j, it := range lay.Items() {
			for q, line := range strings.Split(it.Box().Content(), "\n") {
				y, x := it.Position().Y()+q, it.Position().X()
				if y >= H || x+core.StringWidth(line) > W {
					continue
				}
				// the text starts at column x of row y
				at := -1
				for b := range rows[y] + "\x00" {
					if b <= len(rows[y]) && core.StringWidth(rows[y][:b]) == x && strings.HasPrefix(rows[y][b:], line) {
						at = b
					}
				}
				if at < 0 {
					govFail(t, "case %d: item %d line %q not at column %d of row %d: %q", i, j, line, x, y, rows[y])
				}
			}
		}
	}
	govCases(n, "flex layouts drawn")
}
