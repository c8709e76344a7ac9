package main

import (
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---- strings: concatenation chains over an uninterpreted sort ----
func catParts(t *Term) []*Term {
	var out []*Term
	for t.op == "app" && t.name == "cat" {
		out = append(out, t.args[0])
		t = t.args[1]
	}
	if t.op == "lit" && t.s == "" {
		return out
	}
	return append(out, t)
}
func Cat(ts ...*Term) *Term {
	var ps []*Term
	for _, t := range ts {
		for _, p := range catParts(t) {
			if p.op == "lit" && len(ps) > 0 && ps[len(ps)-1].op == "lit" {
				ps[len(ps)-1] = StrLit(ps[len(ps)-1].s + p.s)
			} else {
				ps = append(ps, p)
			}
		}
	}
	return catOf(ps)
}
func catOf(ps []*Term) *Term {
	if len(ps) == 0 {
		return StrLit("")
	}
	r := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		r = mkCat(ps[i], r)
	}
	return r
}
func mkCat(a, b *Term) *Term {
	if _, ok := funs["cat"]; !ok {
		funs["cat"] = &FunDecl{name: "cat", args: []string{"Str", "Str"}, ret: "Str"}
	}
	return mkTerm(Term{op: "app", name: "cat", args: []*Term{a, b}, sort: "Str"})
}

func nonDigitStart(ps []*Term) bool {
	if len(ps) == 0 {
		return true
	}
	p := ps[0]
	return p.op == "lit" && p.s != "" && (p.s[0] < '0' || p.s[0] > '9')
}

// eqCat simplifies equality of strings; nil when nothing to do
func eqCat(a, b *Term) *Term {
	pa, pb := catParts(a), catParts(b)
	if len(pa) <= 1 && len(pb) <= 1 && !(len(pa) == 1 && len(pb) == 1 && isItoa(pa[0]) && isItoa(pb[0])) {
		return nil
	}
	pa, pb = append([]*Term{}, pa...), append([]*Term{}, pb...)
	var side []*Term
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.op == "lit" && y.op == "lit" {
			n := len(x.s)
			if len(y.s) < n {
				n = len(y.s)
			}
			if x.s[:n] != y.s[:n] {
				return False
			}
			if len(x.s) > n {
				pa[0] = StrLit(x.s[n:])
			} else {
				pa = pa[1:]
			}
			if len(y.s) > n {
				pb[0] = StrLit(y.s[n:])
			} else {
				pb = pb[1:]
			}
			changed = true
			continue
		}
		if isItoa(x) && isItoa(y) && nonDigitStart(pa[1:]) && nonDigitStart(pb[1:]) {
			side = append(side, Eq(x.args[0], y.args[0]))
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.op == "lit" && y.op == "lit" {
			n := len(x.s)
			if len(y.s) < n {
				n = len(y.s)
			}
			if x.s[len(x.s)-n:] != y.s[len(y.s)-n:] {
				return False
			}
			if len(x.s) > n {
				pa[len(pa)-1] = StrLit(x.s[:len(x.s)-n])
			} else {
				pa = pa[:len(pa)-1]
			}
			if len(y.s) > n {
				pb[len(pb)-1] = StrLit(y.s[:len(y.s)-n])
			} else {
				pb = pb[:len(pb)-1]
			}
			changed = true
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return And(side...)
	}
	if len(pa) == 0 || len(pb) == 0 {
		rest := pa
		if len(pa) == 0 {
			rest = pb
		}
		for _, p := range rest {
			if p.op == "lit" || isItoa(p) {
				return False
			}
		}
		if len(rest) == 1 && !changed {
			return nil
		}
		for _, p := range rest {
			side = append(side, Eq(p, StrLit("")))
		}
		return And(side...)
	}
	if !changed {
		return nil
	}
	x, y := catOf(pa), catOf(pb)
	if x.id > y.id {
		x, y = y, x
	}
	side = append(side, mkTerm(Term{op: "=", args: []*Term{x, y}, sort: "Bool"}))
	return And(side...)
}
func isItoa(t *Term) bool { return t.op == "app" && t.name == "itoa" }

func SLen(s *Term) *Term          { return App("slen", "Int", s) }
func SAt(s, i *Term) *Term        { return App("sat", "Int", s, i) }
func Substr(s, a, b *Term) *Term  { return App("substr", "Str", s, a, b) }
func Itoa(n *Term) *Term          { return App("itoa", "Str", n) }
func isLitInt(t *Term) bool       { return t.op == "int" && t.n.IsInt64() }

func simpApp(name, ret string, args []*Term) *Term {
	// push through ite for cheap structural functions
	switch name {
	case "cat":
		return Cat(args[0], args[1])
	case "slen":
		s := args[0]
		if s.op == "lit" {
			return Int(int64(len(s.s)))
		}
		if s.op == "ite" {
			return Ite(s.args[0], SLen(s.args[1]), SLen(s.args[2]))
		}
		if ps := catParts(s); len(ps) > 1 {
			r := Zero
			for _, p := range ps {
				r = Add(r, SLen(p))
			}
			return r
		}
	case "sat":
		s, i := args[0], args[1]
		if s.op == "lit" && isLitInt(i) {
			k := i.n.Int64()
			if k >= 0 && k < int64(len(s.s)) {
				return Int(int64(s.s[k]))
			}
		}
		if s.op == "app" && s.name == "cat" && s.args[0].op == "lit" {
			n := int64(len(s.args[0].s))
			if isLitInt(i) {
				if i.n.Int64() < n && i.n.Int64() >= 0 {
					return SAt(s.args[0], i)
				}
				return SAt(s.args[1], Sub(i, Int(n)))
			}
		}
	case "substr":
		s, a, b := args[0], args[1], args[2]
		if a == Zero && b == SLen(s) {
			return s
		}
		if a == b {
			return StrLit("")
		}
		if s.op == "lit" && isLitInt(a) && isLitInt(b) {
			x, y := a.n.Int64(), b.n.Int64()
			if 0 <= x && x <= y && y <= int64(len(s.s)) {
				return StrLit(s.s[x:y])
			}
		}
		if s.op == "app" && s.name == "substr" {
			return Substr(s.args[0], Add(s.args[1], a), Add(s.args[1], b))
		}
		if s.op == "app" && s.name == "cat" {
			// drop whole leading parts
			p, rest := s.args[0], s.args[1]
			n := SLen(p)
			if d := Sub(a, n); d.op == "int" && d.n.Sign() >= 0 {
				return Substr(rest, d, Sub(b, n))
			}
			if a == Zero {
				if d := Sub(b, n); d.op == "int" && d.n.Sign() <= 0 {
					return Substr(p, a, b)
				}
				if l := Sub(b, Add(n, SLen(rest))); l.op == "int" && l.n.Sign() < 0 {
					// prefix that cuts into the tail
					d := Sub(b, n)
					if q := Sub(d, Zero); isLitInt(q) || rest.op == "app" && rest.name == "cat" {
						return Cat(p, Substr(rest, Zero, d))
					}
				}
				if d := Sub(b, n); d == SLen(rest) {
					return s
				}
			}
		}
	case "itoa":
		if isLitInt(args[0]) {
			return StrLit(args[0].n.String())
		}
	case "atoiVal":
		if isItoa(args[0]) {
			return args[0].args[0]
		}
		if args[0].op == "lit" {
			if n, err := strconv.Atoi(args[0].s); err == nil {
				return Int(int64(n))
			}
		}
	case "atoiOK":
		if isItoa(args[0]) {
			return True
		}
		if args[0].op == "lit" {
			_, err := strconv.Atoi(args[0].s)
			return Bool(err == nil)
		}
	case "repeat":
		if args[0].op == "lit" && args[0].s == "" {
			return StrLit("")
		}
		if isLitInt(args[1]) {
			n := args[1].n.Int64()
			if n <= 0 {
				return StrLit("")
			}
			if n == 1 {
				return args[0]
			}
			if args[0].op == "lit" && n*int64(len(args[0].s)) <= 256 {
				return StrLit(strings.Repeat(args[0].s, int(n)))
			}
		}
	case "runeStr":
		if isLitInt(args[0]) {
			return StrLit(string(rune(args[0].n.Int64())))
		}
	case "runeCount":
		if args[0].op == "lit" {
			return Int(int64(utf8.RuneCountInString(args[0].s)))
		}
		if args[0].op == "app" && args[0].name == "runeStr" {
			return One
		}
	case "hasPrefix":
		s, p := args[0], args[1]
		if s.op == "lit" && p.op == "lit" {
			return Bool(strings.HasPrefix(s.s, p.s))
		}
		if p.op == "lit" {
			if p.s == "" {
				return True
			}
			if ps := catParts(s); len(ps) > 1 && ps[0].op == "lit" {
				if len(ps[0].s) >= len(p.s) {
					return Bool(strings.HasPrefix(ps[0].s, p.s))
				}
				if !strings.HasPrefix(p.s, ps[0].s) {
					return False
				}
			}
		}
	case "hasSuffix":
		if args[0].op == "lit" && args[1].op == "lit" {
			return Bool(strings.HasSuffix(args[0].s, args[1].s))
		}
	case "strContains":
		if args[0].op == "lit" && args[1].op == "lit" {
			return Bool(strings.Contains(args[0].s, args[1].s))
		}
	case "strLower":
		if args[0].op == "lit" {
			return StrLit(strings.ToLower(args[0].s))
		}
	case "strLess":
		if args[0].op == "lit" && args[1].op == "lit" {
			return Bool(args[0].s < args[1].s)
		}
		if args[0] == args[1] {
			return False
		}
	case "at":
		arr, off, i := args[0], args[1], args[2]
		if off == Zero {
			return Select(arr, i)
		}
		switch arr.op {
		case "constarr":
			return arr.args[0]
		case "store":
			p := Add(off, i)
			if arr.args[1] == p {
				return arr.args[2]
			}
			if distinctTerms(arr.args[1], p) {
				return At(arr.args[0], off, i)
			}
		case "ite":
			return Ite(arr.args[0], At(arr.args[1], off, i), At(arr.args[2], off, i))
		case "app":
			if arr.name == "shift!"+arr.sort {
				return At(arr.args[0], Add(arr.args[1], off), i)
			}
		}
		if off.op == "ite" && !off.bound {
			return Ite(off.args[0], At(arr, off.args[1], i), At(arr, off.args[2], i))
		}
	}
	if strings.HasPrefix(name, "at!") {
		return simpApp("at", ret, args)
	}
	if strings.HasPrefix(name, "shift!") && args[1] == Zero {
		return args[0]
	}
	if strings.HasPrefix(name, "unbox!") {
		x := args[0]
		if x.op == "app" && x.name == "box!"+ret {
			return x.args[0]
		}
		if x.op == "ite" {
			return Ite(x.args[0], Unbox(x.args[1], ret), Unbox(x.args[2], ret))
		}
	}
	return nil
}

// At reads element i of the slice window starting at off of array arr.
func At(arr, off, i *Term) *Term {
	if off == Zero {
		return Select(arr, i)
	}
	_, v := arrSorts(arr.sort)
	return App("at!"+arr.sort, v, arr, off, i)
}
func Shift(arr, off *Term) *Term {
	if off == Zero {
		return arr
	}
	return App("shift!"+arr.sort, arr.sort, arr, off)
}

var _ = big.NewInt
