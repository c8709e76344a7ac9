//gov:pkg components/input
package input_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/input/internal/textarea/domain/model"
	"github.com/phoenix-tui/phoenix/components/input/internal/textarea/domain/value"
)

// the oracle edits the plain text: g10off is the rune offset of a position in it
func g10off(text []rune, row, col int) (off int, ok bool) {
	ls := strings.Split(string(text), "\n")
	if row >= len(ls) {
		return 0, false
	}
	for i := 0; i < row; i++ {
		off += len([]rune(ls[i])) + 1
	}
	n := len([]rune(ls[row]))
	if col > n {
		col = n
	}
	return off + col, true
}

func g10line(text []rune, row int) []rune { return []rune(strings.Split(string(text), "\n")[row]) }

func g10cut(text []rune, from, to int, with ...rune) []rune {
	out := append([]rune{}, text[:from]...)
	out = append(out, with...)
	return append(out, text[to:]...)
}

func TestGovBuffer(t *testing.T) {
	r := govRand()
	n := govN(2500, 150000)
	al := []rune("ab é世́👍\t")
	word := func() string {
		var b strings.Builder
		for i := r.Intn(6); i > 0; i-- {
			b.WriteRune(al[r.Intn(len(al))])
		}
		return b.String()
	}
	seen := 0
	for c := 0; c < n; c++ {
		var ls []string
		for i := 1 + r.Intn(5); i > 0; i-- {
			ls = append(ls, word())
		}
		start := strings.Join(ls, "\n")
		bufs := []*model.Buffer{model.NewBufferFromString(start)}
		texts := [][]rune{[]rune(start)}
		h := []string{fmt.Sprintf("text %q", start)}
		if r.Intn(6) == 0 {
			bufs, texts, h = []*model.Buffer{model.NewBuffer()}, [][]rune{nil}, []string{"empty"}
		}
		for j := 0; j < 3+r.Intn(14); j++ {
			k := len(bufs) - 1
			if r.Intn(3) == 0 {
				k = r.Intn(len(bufs))
			}
			b, tx := bufs[k], texts[k]
			rows := strings.Count(string(tx), "\n") + 1
			row := r.Intn(rows)
			if r.Intn(8) == 0 {
				row = rows + r.Intn(2)
			}
			w := 0
			if row < rows {
				w = len(g10line(tx, row))
			}
			col := r.Intn(w + 1)
			if r.Intn(8) == 0 {
				col = w + r.Intn(3)
			}
			off, in := g10off(tx, row, col)
			res, want, op, ret, wret := b, tx, "", "", ""
			bad := govTry(func() {
				switch r.Intn(9) {
				case 0, 1:
					ch := al[r.Intn(len(al))]
					op = fmt.Sprintf("InsertChar(%d,%d,%q)", row, col, ch)
					res = b.InsertChar(row, col, ch)
					if in {
						want = g10cut(tx, off, off, ch)
					}
				case 2:
					op = fmt.Sprintf("InsertNewline(%d,%d)", row, col)
					res = b.InsertNewline(row, col)
					if in {
						want = g10cut(tx, off, off, '\n')
					}
				case 3:
					op = fmt.Sprintf("DeleteChar(%d,%d)", row, col)
					res = b.DeleteChar(row, col)
					if in && col < w {
						want = g10cut(tx, off, off+1)
					}
				case 4:
					op = fmt.Sprintf("DeleteLine(%d)", row)
					res, ret = b.DeleteLine(row)
					if in {
						wret = string(g10line(tx, row))
						from, _ := g10off(tx, row, 0)
						to := from + w
						if row < rows-1 {
							to++
						} else if row > 0 {
							from--
						}
						want = g10cut(tx, from, to)
					}
				case 5:
					op = fmt.Sprintf("DeleteToLineEnd(%d,%d)", row, col)
					res, ret = b.DeleteToLineEnd(row, col)
					if in {
						end, _ := g10off(tx, row, w)
						wret = string(tx[off:end])
						want = g10cut(tx, off, end)
					}
				case 6:
					s := word()
					op = fmt.Sprintf("SetLine(%d,%q)", row, s)
					res = b.SetLine(row, s)
					if in {
						from, _ := g10off(tx, row, 0)
						want = g10cut(tx, from, from+w, []rune(s)...)
					}
				case 7:
					op = fmt.Sprintf("JoinWithNextLine(%d)", row)
					res = b.JoinWithNextLine(row)
					if row < rows-1 {
						end, _ := g10off(tx, row, w)
						want = g10cut(tx, end, end+1)
					}
				default:
					row2 := r.Intn(rows)
					col2 := r.Intn(len(g10line(tx, row2)) + 1)
					if !in || col > w {
						op = "Copy"
						res = b.Copy()
						break
					}
					op = fmt.Sprintf("TextInRange(%d,%d,%d,%d)", row, col, row2, col2)
					ret = b.TextInRange(value.NewRange(value.NewPosition(row, col), value.NewPosition(row2, col2)))
					to, _ := g10off(tx, row2, col2)
					if to < off {
						off, to = to, off
					}
					wret = string(tx[off:to])
				}
			})
			h = append(h, fmt.Sprintf("%s on #%d", op, k))
			if bad != nil {
				govFail(t, "panic %v: %s", bad, strings.Join(h, "; "))
				return
			}
			if ret != wret {
				govFail(t, "returned %q, want %q: %s", ret, wret, strings.Join(h, "; "))
				return
			}
			bufs, texts = append(bufs, res), append(texts, want)
		}
		for j := range bufs {
			seen++
			b, want := bufs[j], string(texts[j])
			wl := strings.Split(want, "\n")
			e := ""
			gl := b.Lines()
			for i := range gl {
				if i < len(wl) && gl[i] != b.Line(i) {
					e = fmt.Sprintf("Line(%d)=%q", i, b.Line(i))
				}
			}
			switch {
			case b.String() != want:
				e = fmt.Sprintf("String=%q", b.String())
			case b.LineCount() != len(wl) || len(gl) != len(wl):
				e = fmt.Sprintf("LineCount=%d, %d lines", b.LineCount(), len(gl))
			case strings.Join(gl, "\n") != want:
				e = fmt.Sprintf("Lines=%q", gl)
			case b.IsEmpty() != (want == ""):
				e = fmt.Sprintf("IsEmpty=%v", b.IsEmpty())
			}
			if e != "" {
				govFail(t, "buffer #%d is %s, want %q: %s", j, e, want, strings.Join(h, "; "))
				return
			}
			gl[0] = "changed"
			if b.String() != want {
				govFail(t, "buffer #%d changes when its line list is written to: %s", j, strings.Join(h, "; "))
				return
			}
		}
	}
	govCases(seen, "buffers in branching edit histories")
}
