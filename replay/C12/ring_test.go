//gov:pkg components/input
package input_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/input/internal/textarea/domain/model"
)

// g12 is what a ring must behave like: entries oldest first and the entry next yanked
type g12 struct {
	max   int
	items []string
	at    int
}

func (w g12) yank() string {
	if len(w.items) == 0 {
		return ""
	}
	return w.items[w.at]
}

// g12same compares everything a user can see: emptiness and the entries met while stepping round
func g12same(k *model.KillRing, w g12) string {
	if k.IsEmpty() != (len(w.items) == 0) {
		return fmt.Sprintf("IsEmpty=%v", k.IsEmpty())
	}
	at := w.at
	for i := 0; i <= 2*len(w.items); i++ {
		want := ""
		if len(w.items) > 0 {
			want = w.items[at]
		}
		if k.Yank() != want {
			return fmt.Sprintf("entry after %d steps is %q, want %q", i, k.Yank(), want)
		}
		k = k.YankPop()
		at--
		if at < 0 {
			at = len(w.items) - 1
		}
	}
	return ""
}

func TestGovKillRing(t *testing.T) {
	r := govRand()
	n := govN(4000, 300000)
	seen := 0
	for i := 0; i < n; i++ {
		max := r.Intn(6) - 1
		if r.Intn(8) == 0 {
			max = 7 + r.Intn(20)
		}
		eff := max
		if eff <= 0 {
			eff = 10
		}
		ks, ws := []*model.KillRing{model.NewKillRing(max)}, []g12{{max: eff}}
		h := []string{fmt.Sprintf("NewKillRing(%d)", max)}
		for j := 0; j < 4+r.Intn(40); j++ {
			b := len(ks) - 1
			if r.Intn(4) == 0 {
				b = r.Intn(len(ks))
			}
			k, w := ks[b], ws[b]
			op := ""
			switch r.Intn(5) {
			case 0, 1, 2:
				s := []string{"", "a", "\n", "wörd", "長い", fmt.Sprint("k", j), fmt.Sprint("k", j)}[r.Intn(7)]
				op = fmt.Sprintf("Kill(%q)", s)
				k = k.Kill(s)
				if s != "" {
					it := append(append([]string{}, w.items...), s)
					if len(it) > w.max {
						it = it[1:]
					}
					w = g12{w.max, it, len(it) - 1}
				}
			case 3:
				op = "YankPop"
				k = k.YankPop()
				if len(w.items) > 0 {
					w.at = (w.at + len(w.items) - 1) % len(w.items)
				}
			default:
				op = "Copy"
				k = k.Copy()
			}
			ks, ws, h = append(ks, k), append(ws, w), append(h, fmt.Sprintf("%s on #%d", op, b))
		}
		for j := range ks {
			seen++
			if e := g12same(ks[j], ws[j]); e != "" {
				govFail(t, "ring #%d of %s: %s (want entries %q, at %d)", j, strings.Join(h, "; "), e, ws[j].items, ws[j].at)
				return
			}
		}
	}
	govCases(seen, "rings in branching kill histories")
}
