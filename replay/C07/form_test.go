//gov:pkg components/form
package form_test

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/form"
	"github.com/phoenix-tui/phoenix/components/form/internal/domain/model"
	"github.com/phoenix-tui/phoenix/components/form/internal/domain/value"
	"github.com/phoenix-tui/phoenix/tea"
)

type gText struct{ s string }

func (g gText) View() string  { return "<" + g.s + ">" }
func (g gText) Value() string { return g.s }
func (g gText) Update(m tea.Msg) (value.FieldModel, tea.Cmd) {
	if k, ok := m.(tea.KeyMsg); ok && k.Type == tea.KeyRune {
		return gText{g.s + string(k.Rune)}, nil
	}
	return g, nil
}

type gSel struct {
	v  any
	ok bool
}

func (g gSel) View() string               { return "sel" }
func (g gSel) SelectedValue() (any, bool) { return g.v, g.ok }

type gPlain struct{ n int }

func (g gPlain) View() string { return "plain" }

func govRule(k int) value.Validator {
	return func(v any) error {
		s := fmt.Sprint(v)
		switch k {
		case 0:
			if v == nil || s == "" {
				return errors.New("required")
			}
		case 1:
			if len(s) < 2 {
				return errors.New("short")
			}
		case 2:
			if len(s) > 3 {
				return errors.New("long")
			}
		case 3:
			if strings.Contains(s, "x") {
				return errors.New("no x")
			}
		case 4:
			if v == nil {
				return errors.New("nil")
			}
		}
		return nil
	}
}

func TestGovForm(t *testing.T) {
	rng := govRand()
	n := govN(4000, 60000)
	for c := 0; c < n && govFails == 0; c++ {
		var hist []string
		ctx := func() string { return "history " + strings.Join(hist, "; ") }
		fail := func(f string, a ...any) { govFail(t, "%s: %s", ctx(), fmt.Sprintf(f, a...)) }
		type fld struct {
			name  string
			m     value.FieldModel
			rules []int
			errs  []string
			dirty bool
		}
		type state struct {
			f   *form.Form
			fs  []fld
			foc int
		}
		cp := func(fs []fld) []fld {
			r := append([]fld(nil), fs...)
			for i := range r {
				r[i].errs = append([]string(nil), r[i].errs...)
			}
			return r
		}
		cur := state{f: form.New("T")}
		all := []state{cur}
		check := func(s state, when string) {
			wantErr := map[string][]string{}
			vals := map[string]value.FieldModel{}
			valid, dirty := true, false
			for _, x := range s.fs {
				if len(x.errs) > 0 {
					wantErr[x.name] = x.errs
					valid = false
				}
				dirty = dirty || x.dirty
				vals[x.name] = x.m
				if g := s.f.Value(x.name); g != x.m {
					fail("%s: Value(%s)=%v want %v", when, x.name, g, x.m)
				}
			}
			if g := s.f.Errors(); len(g) != len(wantErr) || len(g) > 0 && !reflect.DeepEqual(g, wantErr) {
				fail("%s: Errors()=%v want %v", when, g, wantErr)
			}
			if g := s.f.Values(); len(g) != len(vals) || len(g) > 0 && !reflect.DeepEqual(g, vals) {
				fail("%s: Values()=%v want %v", when, g, vals)
			}
			if s.f.IsValid() != valid || s.f.IsDirty() != dirty {
				fail("%s: valid=%v dirty=%v want %v %v", when, s.f.IsValid(), s.f.IsDirty(), valid, dirty)
			}
			// the marked field
			var v string
			govStep(t, func() { v = s.f.View() }, ctx)
			if k := strings.Count(v, "← focused"); len(s.fs) > 0 && k != 1 {
				fail("%s: %d focused fields", when, k)
			}
			for i, x := range s.fs {
				if strings.Contains(v, x.name+": ← focused") != (i == s.foc) {
					fail("%s: focus mark of field %d wrong in %q (want field %d)", when, i, v, s.foc)
				}
			}
		}
		seq := 0
		for st := 0; st < 16 && govFails == 0; st++ {
			s := cur
			s.fs = cp(cur.fs)
			var cmd tea.Cmd
			submit, reset := false, false
			op := rng.Intn(12)
			if st < 3 && rng.Intn(4) > 0 {
				op = 0
			}
			switch {
			case op == 0 && len(s.fs) < 6:
				name := fmt.Sprintf("f%d", seq)
				seq++
				var m value.FieldModel
				switch rng.Intn(4) {
				case 0:
					m = gSel{"v", rng.Intn(2) == 0}
				case 1:
					m = gPlain{rng.Intn(3)}
				default:
					m = gText{[]string{"", "a", "ab", "abcd", "x"}[rng.Intn(5)]}
				}
				var rules []int
				var vs []value.Validator
				for k := rng.Intn(3); k > 0; k-- {
					r := rng.Intn(5)
					rules = append(rules, r)
					vs = append(vs, govRule(r))
				}
				hist = append(hist, fmt.Sprintf("Field(%s,%v,%v)", name, m, rules))
				govStep(t, func() { s.f = s.f.Field(name, name, m, vs...) }, ctx)
				s.fs = append(s.fs, fld{name: name, m: m, rules: rules})
			case op == 1: // go back to an earlier form and branch from there
				k := rng.Intn(len(all))
				hist = append(hist, fmt.Sprintf("back to #%d", k))
				cur = all[k]
				all = append(all, cur)
				continue
			default:
				km := []tea.KeyMsg{{Type: tea.KeyTab}, {Type: tea.KeyTab}, {Type: tea.KeyTab, Shift: true}, {Type: tea.KeyEnter}, {Type: tea.KeyEnter}, {Type: tea.KeyRune, Rune: 'a'}, {Type: tea.KeyRune, Rune: 'x'}, {Type: tea.KeyUp}}[rng.Intn(8)]
				hist = append(hist, "key "+km.String())
				govStep(t, func() { s.f, cmd = s.f.Update(km) }, ctx)
				N := len(s.fs)
				switch {
				case km.Type == tea.KeyTab && N > 0 && km.Shift:
					s.foc = (s.foc + N - 1) % N
				case km.Type == tea.KeyTab && N > 0:
					s.foc = (s.foc + 1) % N
				case km.Type == tea.KeyEnter:
					submit = true
					for i := range s.fs {
						x := &s.fs[i]
						var v any = x.m
						switch m := x.m.(type) {
						case gText:
							v = m.s
						case gSel:
							v = m.v
							if !m.ok {
								v = nil
							}
						}
						x.errs = nil
						for _, r := range x.rules {
							if e := govRule(r)(v); e != nil {
								x.errs = append(x.errs, e.Error())
							}
						}
						if len(x.errs) > 0 {
							submit = false
						}
					}
				case (km.Type == tea.KeyRune || km.Type == tea.KeyUp) && N > 0:
					if g, ok := s.fs[s.foc].m.(gText); ok {
						if km.Type == tea.KeyRune {
							g.s += string(km.Rune)
						}
						s.fs[s.foc].m, s.fs[s.foc].dirty = g, true
					}
				}
			}
			if govFails > 0 {
				break
			}
			got := false
			if cmd != nil {
				_, got = cmd().(form.SubmitMsg)
			}
			if got != submit || reset {
				fail("submitted=%v, want %v (fields %v)", got, submit, s.fs)
			}
			cur = s
			all = append(all, s)
			for i, a := range all {
				check(a, fmt.Sprintf("form #%d", i))
				if govFails > 0 {
					break
				}
			}
		}
	}
	govCases(n, "form histories")
}

// the domain model on its own: validation of chosen fields, replacing the fields
func TestGovFormModel(t *testing.T) {
	rng := govRand()
	n := govN(4000, 60000)
	for c := 0; c < n && govFails == 0; c++ {
		k := rng.Intn(5)
		var fs []*value.Field
		rules := make([][]int, k)
		for i := 0; i < k; i++ {
			var vs []value.Validator
			for j := rng.Intn(4); j > 0; j-- {
				r := rng.Intn(5)
				rules[i] = append(rules[i], r)
				vs = append(vs, govRule(r))
			}
			fs = append(fs, value.NewField(fmt.Sprint("f", i), "l", gPlain{i}).WithValidators(vs...))
		}
		f := model.New("t").WithFields(fs)
		for st := 0; st < 8; st++ {
			i := rng.Intn(7) - 1
			var v any
			if rng.Intn(3) > 0 {
				v = []string{"", "a", "abc", "xxxx"}[rng.Intn(4)]
			}
			before := fmt.Sprint(f.Errors(), f.FocusedIndex(), f.Submitted())
			g := f.ValidateField(i, v)
			if before != fmt.Sprint(f.Errors(), f.FocusedIndex(), f.Submitted()) {
				govFail(t, "ValidateField(%d,%v) changed the form it was called on", i, v)
			}
			if i >= 0 && i < k {
				var want []string
				for _, r := range rules[i] {
					if e := govRule(r)(v); e != nil {
						want = append(want, e.Error())
					}
				}
				if got := g.Errors()[fmt.Sprint("f", i)]; fmt.Sprint(got) != fmt.Sprint(want) {
					govFail(t, "ValidateField(%d,%v) with rules %v recorded %v, want %v", i, v, rules[i], got, want)
				}
			}
			if rng.Intn(2) == 0 {
				g = g.MoveFocusNext()
			}
			if rng.Intn(4) == 0 {
				h := g.WithFields(fs[:rng.Intn(k+1)])
				if fi := h.FocusedIndex(); fi < 0 || fi >= len(h.Fields()) && fi != 0 {
					govFail(t, "WithFields(%d of %d) keeps focus %d", len(h.Fields()), k, fi)
				}
			}
			if rng.Intn(5) == 0 {
				g = g.Submit().Reset()
				if g.Submitted() || len(g.Errors()) > 0 || g.FocusedIndex() != 0 {
					govFail(t, "Reset left submitted=%v errors=%v focus=%d", g.Submitted(), g.Errors(), g.FocusedIndex())
				}
			}
			f = g
		}
	}
	govCases(n, "form model histories")
}
