package vft

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
)

func keysOf(m map[int]bool) []int {
	r := []int{}
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func setElems(s Lib.Set[Lib.Int]) []int {
	r := []int{}
	for _, x := range s.Elements().GetSlice() {
		r = append(r, unInt(x))
	}
	sort.Ints(r)
	return r
}

func unInt(x Lib.Int) int {
	var n int
	for v := -1; ; v++ {
		n = v
		if x.Equals(Lib.MkInt(v)) {
			return n
		}
		if v > 5000 {
			panic("not an element that was put in")
		}
	}
}

func init() {
	// Several live sets under random operations; each set is used linearly (an operation that may update its receiver replaces it).
	Register("lib-set", 60, func(g *G, c *Case) {
		type ms struct {
			s Lib.Set[Lib.Int]
			m map[int]bool
		}
		univ := Pick(g, 4, 12, 40, 120)
		n := 3
		sets := make([]ms, n)
		for i := range sets {
			sets[i] = ms{Lib.EmptySet[Lib.Int](), map[int]bool{}}
		}
		ops := []string{}
		biggest := 0
		removed := false
		steps := 2 + g.Size*4
		for k := 0; k < steps && c.Fail == ""; k++ {
			i, j := g.Intn(n), g.Intn(n)
			a, b := &sets[i], &sets[j]
			x := g.Intn(univ)
			op := ""
			switch g.Intn(13) {
			case 0, 1, 2, 3:
				xs := []Lib.Int{}
				base := g.Intn(univ)
				mono := g.Intn(3)
				for q := 0; q <= g.Intn(6); q++ {
					v := g.Intn(univ)
					if mono == 1 {
						v = (base + q) % univ
					} else if mono == 2 {
						v = (base - q + univ) % univ
					}
					xs = append(xs, Lib.MkInt(v))
					a.m[v] = true
				}
				a.s = a.s.Add(xs...)
				op = fmt.Sprintf("s%d.Add(%v)", i, xs)
			case 4, 5, 6:
				if l := keysOf(a.m); len(l) > 0 && g.Chance(3, 4) {
					x = l[g.Intn(len(l))]
				}
				a.s = a.s.Remove(Lib.MkInt(x))
				removed = removed || a.m[x]
				delete(a.m, x)
				op = fmt.Sprintf("s%d.Remove(%d)", i, x)
			case 7:
				a.s = a.s.Union(b.s)
				for v := range b.m {
					a.m[v] = true
				}
				op = fmt.Sprintf("s%d.Union(s%d)", i, j)
			case 8:
				m := map[int]bool{}
				for v := range a.m {
					if b.m[v] {
						m[v] = true
					}
				}
				op = fmt.Sprintf("s%d = s%d.Inter(s%d)", i, i, j)
				*a = ms{a.s.Inter(b.s), m}
			case 9:
				s1 := b.s
				a.s = a.s.Diff(s1)
				om := map[int]bool{}
				for v := range b.m {
					om[v] = true
				}
				for v := range om {
					delete(a.m, v)
				}
				op = fmt.Sprintf("s%d.Diff(s%d)", i, j)
			case 10:
				m := map[int]bool{}
				for v := range b.m {
					m[v] = true
				}
				sets[i] = ms{b.s.Copy(), m}
				op = fmt.Sprintf("s%d = s%d.Copy()", i, j)
				if i == j {
					op = fmt.Sprintf("s%d = copy of itself", i)
				}
			case 11:
				d, r := 2+g.Intn(3), g.Intn(2)
				m := map[int]bool{}
				for v := range b.m {
					if v%d == r {
						m[v] = true
					}
				}
				sets[i] = ms{b.s.Filter(func(x Lib.Int) bool { return unInt(x)%d == r }), m}
				op = fmt.Sprintf("s%d = s%d.Filter(=%d mod %d)", i, j, r, d)
			case 12:
				dis := true
				for v := range a.m {
					dis = dis && !b.m[v]
				}
				op = fmt.Sprintf("s%d.Disjoint(s%d)", i, j)
				if got := a.s.Disjoint(b.s); got != dis {
					c.Failf("%s is %v, expected %v", op, got, dis)
				}
				if got := sets[i].s.Contains(Lib.MkInt(x)); got != sets[i].m[x] {
					c.Failf("s%d.Contains(%d) is %v", i, x, got)
				}
			}
			ops = append(ops, op)
			for q := range sets {
				s, m := sets[q].s, sets[q].m
				want := keysOf(m)
				if got := setElems(s); !eqInts(got, want) {
					c.Failf("after %s: s%d holds %v, expected %v", strings.Join(ops, "; "), q, got, want)
				}
				if s.Cardinal() != len(m) || s.IsEmpty() != (len(m) == 0) {
					c.Failf("after %s: s%d has cardinal %d empty %v, expected %v", strings.Join(ops, "; "), q, s.Cardinal(), s.IsEmpty(), want)
				}
				for _, v := range want {
					if !s.Contains(Lib.MkInt(v)) {
						c.Failf("after %s: s%d does not contain %d", strings.Join(ops, "; "), q, v)
					}
				}
				v := g.Intn(univ)
				if s.Contains(Lib.MkInt(v)) != m[v] {
					c.Failf("after %s: s%d.Contains(%d) is %v", strings.Join(ops, "; "), q, v, !m[v])
				}
				if h := s.InternalHeight(); float64(h) > 1.4405*math.Log2(float64(len(m)+2)) {
					c.Failf("after %s: s%d has %d elements and height %d", strings.Join(ops, "; "), q, len(m), h)
				}
				if len(m) > biggest {
					biggest = len(m)
				}
			}
		}
		c.Key = strings.Join(ops, ";")
		c.Nontrivial = biggest >= 3 && removed
		c.Sample = c.Key
	})

	Register("lib-list", 30, func(g *G, c *Case) {
		cmp := func(x, y Lib.Int) bool { return x.Equals(y) }
		type ml struct {
			l Lib.List[Lib.Int]
			m []int
		}
		show := func(l Lib.List[Lib.Int]) []int {
			r := []int{}
			for i := 0; i < l.Len(); i++ {
				r = append(r, unInt(l.At(i)))
			}
			return r
		}
		idx := func(m []int, x int) int {
			for i, y := range m {
				if x == y {
					return i
				}
			}
			return -1
		}
		ls := []ml{{Lib.NewList[Lib.Int](), []int{}}, {Lib.MkListV(Lib.MkInt(1), Lib.MkInt(2)), []int{1, 2}}}
		ops := []string{}
		check := func() {
			for q := range ls {
				if got := show(ls[q].l); !eqInts(got, ls[q].m) {
					c.Failf("after %s: l%d is %v, expected %v", strings.Join(ops, "; "), q, got, ls[q].m)
				}
				if ls[q].l.Len() != len(ls[q].m) || ls[q].l.Empty() != (len(ls[q].m) == 0) {
					c.Failf("after %s: length of l%d is %d", strings.Join(ops, "; "), q, ls[q].l.Len())
				}
			}
		}
		univ := 3 + g.Intn(8)
		for k := 0; k < 3+2*g.Size && c.Fail == ""; k++ {
			i := g.Intn(2)
			a, b := &ls[i], &ls[1-i]
			x := g.Intn(univ)
			op := ""
			expect := func(what string, got, want any) {
				if fmt.Sprint(got) != fmt.Sprint(want) {
					c.Failf("after %s: %s on %v gives %v, expected %v", strings.Join(ops, "; "), what, a.m, got, want)
				}
			}
			switch g.Intn(16) {
			case 0, 1, 2:
				for q := 0; q <= g.Intn(4); q++ {
					v := g.Intn(univ)
					a.l.Append(Lib.MkInt(v))
					a.m = append(a.m, v)
				}
				op = fmt.Sprintf("l%d.Append", i)
			case 3:
				if len(a.m) > 0 {
					p := g.Intn(len(a.m))
					a.l.Upd(p, Lib.MkInt(x))
					a.m[p] = x
					op = fmt.Sprintf("l%d.Upd(%d,%d)", i, p, x)
				}
			case 4:
				y := g.Intn(univ)
				a.l.Add(cmp, Lib.MkInt(x), Lib.MkInt(y))
				for _, v := range []int{x, y} {
					if idx(a.m, v) < 0 {
						a.m = append(a.m, v)
					}
				}
				op = fmt.Sprintf("l%d.Add(%d,%d)", i, x, y)
			case 5:
				a.l = Lib.ListAdd(a.l, Lib.MkInt(x))
				if idx(a.m, x) < 0 {
					a.m = append(a.m, x)
				}
				op = fmt.Sprintf("ListAdd(l%d,%d)", i, x)
			case 6:
				p := g.Intn(len(a.m) + 2)
				old := a.l
				om := append([]int{}, a.m...)
				a.l = a.l.RemoveAt(p)
				if p < len(a.m) {
					a.m = append(append([]int{}, a.m[:p]...), a.m[p+1:]...)
				}
				if !eqInts(show(old), om) {
					c.Failf("RemoveAt(%d) changed its receiver %v to %v", p, om, show(old))
				}
				op = fmt.Sprintf("l%d.RemoveAt(%d)", i, p)
			case 7:
				d := 2 + g.Intn(2)
				old := a.l
				om := append([]int{}, a.m...)
				a.l = a.l.Filter(func(x Lib.Int) bool { return unInt(x)%d == 0 })
				m := []int{}
				for _, v := range a.m {
					if v%d == 0 {
						m = append(m, v)
					}
				}
				a.m = m
				if !eqInts(show(old), om) {
					c.Failf("Filter changed its receiver %v to %v", om, show(old))
				}
				op = fmt.Sprintf("l%d.Filter", i)
			case 8:
				b.l = a.l.Copy(func(x Lib.Int) Lib.Int { return x })
				b.m = append([]int{}, a.m...)
				op = fmt.Sprintf("l%d = l%d.Copy", 1-i, i)
			case 9:
				a.l = Lib.ListMap(b.l, func(x Lib.Int) Lib.Int { return Lib.MkInt((unInt(x) + 1) % univ) })
				a.m = []int{}
				for _, v := range b.m {
					a.m = append(a.m, (v+1)%univ)
				}
				op = fmt.Sprintf("l%d = map l%d", i, 1-i)
			case 10:
				expect("ListEquals", Lib.ListEquals(a.l, b.l), eqInts(a.m, b.m))
				expect("ListEquals copy", Lib.ListEquals(a.l, a.l.Copy(func(x Lib.Int) Lib.Int { return x })), true)
				expect("Equals", a.l.Equals(cmp, b.l, a.l), eqInts(a.m, b.m))
			case 11:
				expect("ListMem", Lib.ListMem(Lib.MkInt(x), a.l), idx(a.m, x) >= 0)
				expect("Contains", a.l.Contains(Lib.MkInt(x), cmp), idx(a.m, x) >= 0)
				p := idx(a.m, x)
				switch o := Lib.ListIndexOf(Lib.MkInt(x), a.l).(type) {
				case Lib.Some[int]:
					expect("ListIndexOf", o.Val, p)
				case Lib.None[int]:
					expect("ListIndexOf", -1, p)
				default:
					c.Failf("ListIndexOf gives neither Some nor None")
				}
				expect("Any", a.l.Any(func(y Lib.Int) bool { return unInt(y) == x }), p >= 0)
				v, ok := a.l.Find(func(y Lib.Int) bool { return unInt(y) == x }, Lib.MkInt(univ))
				expect("Find", ok, p >= 0)
				w := univ
				if p >= 0 {
					w = x
				}
				expect("Find", unInt(v), w)
			case 12:
				lo := g.Intn(len(a.m) + 1)
				hi := lo + g.Intn(len(a.m)-lo+1)
				expect("Slice", show(a.l.Slice(lo, hi)), a.m[lo:hi])
				r := []int{}
				for _, v := range a.l.Get(lo, hi) {
					r = append(r, unInt(v))
				}
				expect("Get", r, a.m[lo:hi])
			case 13:
				parts := []string{}
				for _, v := range a.m {
					parts = append(parts, fmt.Sprint(v))
				}
				f := func(x Lib.Int) string { return fmt.Sprint(unInt(x)) }
				d, e := strings.Join(parts, ", "), strings.Join(parts, ";")
				if len(parts) == 0 {
					d, e = "[]", "none"
				}
				expect("ToString", a.l.ToString(f), d)
				expect("ToString with options", a.l.ToString(f, Lib.WithSep(";"), Lib.WithEmpty("none")), e)
			case 14:
				cp := a.l.Copy(func(x Lib.Int) Lib.Int { return x })
				so := Lib.ToStrictlyOrderedList(cp)
				sort.Sort(so)
				m := append([]int{}, a.m...)
				sort.Ints(m)
				expect("sorted list", show(so.List()), m)
				expect("length of the sorted list", so.Len(), len(m))
			case 15:
				n := g.Intn(5)
				expect("MkList", Lib.MkList[Lib.Int](n).Len(), n)
				cl := Lib.ComparableList[Lib.Int](append([]Lib.Int{}, a.l.GetSlice()...))
				cb := Lib.ComparableList[Lib.Int](append([]Lib.Int{}, b.l.GetSlice()...))
				expect("ComparableList.Equals", cl.Equals(cb), eqInts(a.m, b.m))
				expect("ComparableList.Contains", cl.Contains(Lib.MkInt(x)), idx(a.m, x) >= 0)
			}
			if op != "" {
				ops = append(ops, op)
			}
			check()
		}
		c.Key = strings.Join(ops, ";") + fmt.Sprint(ls[0].m, ls[1].m)
		c.Nontrivial = len(ls[0].m)+len(ls[1].m) >= 3
		c.Sample = c.Key
	})

	Register("glob-list-set", 30, func(g *G, c *Case) {
		isSet := g.Chance(1, 2)
		start := []Glob.Integer{}
		m := []int{}
		idx := func(x int) int {
			for i, y := range m {
				if x == y {
					return i
				}
			}
			return -1
		}
		univ := 2 + g.Intn(6)
		for q := 0; q < g.Intn(5); q++ {
			v := g.Intn(univ)
			start = append(start, Glob.Integer(v))
			if !isSet || idx(v) < 0 {
				m = append(m, v)
			}
		}
		var l *Glob.List[Glob.Integer]
		var s *Glob.Set[Glob.Integer]
		sync_ := g.Chance(1, 2)
		switch {
		case isSet && sync_:
			s = Glob.NewSyncSet(start...)
			l = s.List
		case isSet:
			s = Glob.NewSet(start...)
			l = s.List
		case sync_:
			l = Glob.NewSyncList(start...)
		default:
			l = Glob.NewList(start...)
		}
		ops := []string{fmt.Sprint(start)}
		show := func(xs []Glob.Integer) []int {
			r := []int{}
			for _, x := range xs {
				r = append(r, int(x))
			}
			return r
		}
		expect := func(what string, got, want any) {
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.Failf("set %v, after %s: %s gives %v, expected %v", isSet, strings.Join(ops, "; "), what, got, want)
			}
		}
		for k := 0; k < 2+g.Size && c.Fail == ""; k++ {
			x := g.Intn(univ)
			op := ""
			switch g.Intn(11) {
			case 0, 1:
				y := g.Intn(univ)
				if isSet {
					s.Append(Glob.Integer(x), Glob.Integer(y))
				} else {
					l.Append(Glob.Integer(x), Glob.Integer(y))
				}
				for _, v := range []int{x, y} {
					if !isSet || idx(v) < 0 {
						m = append(m, v)
					}
				}
				op = fmt.Sprintf("Append(%d,%d)", x, y)
			case 2:
				l.AppendIfNotContains(Glob.Integer(x))
				if idx(x) < 0 {
					m = append(m, x)
				}
				op = fmt.Sprintf("AppendIfNotContains(%d)", x)
			case 3:
				if len(m) > 0 {
					p := g.Intn(len(m))
					l.Remove(p)
					m = append(append([]int{}, m[:p]...), m[p+1:]...)
					op = fmt.Sprintf("Remove(%d)", p)
				}
			case 4:
				l.RemoveAll(Glob.Integer(x))
				n := []int{}
				for _, v := range m {
					if v != x {
						n = append(n, v)
					}
				}
				m = n
				op = fmt.Sprintf("RemoveAll(%d)", x)
			case 5:
				if len(m) > 0 {
					p, q := g.Intn(len(m)), g.Intn(len(m))
					l.Swap(p, q)
					m[p], m[q] = m[q], m[p]
					op = fmt.Sprintf("Swap(%d,%d)", p, q)
				}
			case 6:
				if len(m) > 0 && !isSet {
					p := g.Intn(len(m))
					l.Set(p, Glob.Integer(x))
					m[p] = x
					op = fmt.Sprintf("Set(%d,%d)", p, x)
				}
			case 7:
				cp := l.Copy()
				expect("Copy", cp.Equals(l), true)
				cp.Append(Glob.Integer(x))
				expect("Copy then Append", cp.Len(), len(m)+1)
				expect("Equals of lists of other lengths", cp.Equals(l), false)
			case 8:
				i, ok := l.GetIndexOf(Glob.Integer(x))
				expect("GetIndexOf", fmt.Sprint(i, ok), fmt.Sprint(idx(x), idx(x) >= 0))
				expect("Contains", l.Contains(Glob.Integer(x)), idx(x) >= 0)
				y := g.Intn(univ)
				expect("ContainsAll", l.ContainsAll(Glob.Integer(x), Glob.Integer(y)), idx(x) >= 0 && idx(y) >= 0)
			case 9:
				if g.Chance(1, 4) {
					l.Clear()
					m = []int{}
					op = "Clear"
				}
			case 10:
				parts := []string{}
				for _, v := range m {
					parts = append(parts, fmt.Sprint(v))
				}
				expect("ToString", l.ToString(), "["+strings.Join(parts, ", ")+"]")
				lo := g.Intn(len(m) + 1)
				expect("GetElements", show(l.GetElements(lo, len(m))), m[lo:])
			}
			if op != "" {
				ops = append(ops, op)
			}
			expect("contents", show(l.Slice()), m)
			expect("length", fmt.Sprint(l.Len(), l.IsEmpty()), fmt.Sprint(len(m), len(m) == 0))
			if len(m) > 0 {
				p := g.Intn(len(m))
				expect("Get", int(l.Get(p)), m[p])
			}
		}
		c.Key = fmt.Sprint(isSet, ops)
		c.Nontrivial = len(ops) >= 4
		c.Sample = c.Key
	})

	Register("glob-map", 30, func(g *G, c *Case) {
		type I = Glob.Integer
		mp := Glob.NewMap[I, I]()
		if g.Chance(1, 2) {
			mp = Glob.NewSyncMap[I, I]()
		}
		mw := Glob.NewMapWithList[I, I]()
		m := map[int]int{}
		w := map[int][]int{}
		univ := 2 + g.Intn(6)
		ops := []string{}
		expect := func(what string, got, want any) {
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.Failf("after %s: %s gives %v, expected %v", strings.Join(ops, "; "), what, got, want)
			}
		}
		same := func(what string, mp *Glob.Map[I, I], m map[int]int) {
			expect(what+" length", mp.Length(), len(m))
			got := map[int]int{}
			ks, vs := mp.Keys(), mp.Values()
			expect(what+" keys and values", len(ks), len(vs))
			for i := range ks {
				got[int(ks[i])] = int(vs[i])
			}
			expect(what, got, m)
		}
		for k := 0; k < 2+g.Size && c.Fail == ""; k++ {
			x, y := g.Intn(univ), g.Intn(univ)
			op := ""
			switch g.Intn(8) {
			case 0, 1, 2:
				old, had := m[x]
				o, r := mp.Set(I(x), I(y))
				expect("Set", fmt.Sprint(int(o), r), fmt.Sprint(old, had))
				m[x] = y
				op = fmt.Sprintf("Set(%d,%d)", x, y)
			case 3:
				mp.Unset(I(x))
				delete(m, x)
				op = fmt.Sprintf("Unset(%d)", x)
			case 4:
				v, ok := mp.GetExists(I(x))
				mv, mok := m[x]
				expect("GetExists", fmt.Sprint(int(v), ok), fmt.Sprint(mv, mok))
				expect("Exists", mp.Exists(I(x)), mok)
				expect("Get", int(mp.Get(I(x))), mv)
				key, found := mp.GetKey(I(y))
				any_ := false
				for _, v := range m {
					any_ = any_ || v == y
				}
				expect("GetKey", found, any_)
				if found {
					expect("the value of GetKey", m[int(key)], y)
				}
			case 5:
				cp := mp.Clone()
				same("Clone", cp, m)
				cp.Set(I(univ+1), I(0))
				same("the map after a change of its clone", mp, m)
				other := Glob.NewMap[I, I]()
				other.Set(I(x), I(univ+3))
				om := map[int]int{x: univ + 3}
				for a, b := range m {
					om[a] = b
				}
				mp.CopyInto(other)
				same("CopyInto", other, om)
			case 6:
				if g.Chance(1, 5) {
					mp.Clear()
					m = map[int]int{}
					op = "Clear"
				}
			case 7:
				switch g.Intn(4) {
				case 0:
					mw.Add(I(x), I(y), I(y))
					w[x] = append(w[x], y, y)
				case 1:
					mw.AddIfNotContains(I(x), I(y))
					in := false
					for _, v := range w[x] {
						in = in || v == y
					}
					if !in {
						w[x] = append(w[x], y)
					}
				case 2:
					mw.RemoveAll(I(x), I(y))
					n := []int{}
					for _, v := range w[x] {
						if v != y {
							n = append(n, v)
						}
					}
					w[x] = n
				case 3:
					if len(w[x]) > 0 {
						p := g.Intn(len(w[x]))
						mw.Remove(I(x), p)
						w[x] = append(append([]int{}, w[x][:p]...), w[x][p+1:]...)
					}
				}
				op = fmt.Sprintf("lists(%d,%d)", x, y)
				for a, b := range w {
					l, ok := mw.GetExists(I(a))
					if !ok {
						if len(b) > 0 {
							c.Failf("after %s: key %d lost", strings.Join(ops, "; "), a)
						}
						continue
					}
					r := []int{}
					for _, v := range l.Slice() {
						r = append(r, int(v))
					}
					if !eqInts(r, b) {
						c.Failf("after %s: list of %d is %v, expected %v", strings.Join(ops, "; "), a, r, b)
					}
				}
			}
			if op != "" {
				ops = append(ops, op)
			}
			same("the map", mp, m)
		}
		c.Key = strings.Join(ops, ";")
		c.Nontrivial = len(ops) >= 4
		c.Sample = c.Key
	})

	Register("small-types", 12, func(g *G, c *Case) {
		expect := func(what string, got, want any) {
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.Failf("%s gives %v, expected %v", what, got, want)
			}
		}
		ints := func() []int {
			r := []int{}
			for q := 0; q < g.Intn(g.Size+1); q++ {
				r = append(r, g.Intn(5))
			}
			return r
		}
		a, b := ints(), ints()
		in := func(x int, l []int) bool {
			for _, y := range l {
				if x == y {
					return true
				}
			}
			return false
		}
		// Integer lists
		x := g.Intn(5)
		expect("ContainsInt", Glob.ContainsInt(x, a), in(x, a))
		ai := Glob.AppendIfNotContainsInt(append([]int{}, a...), x)
		wa := append([]int{}, a...)
		if !in(x, a) {
			wa = append(wa, x)
		}
		expect("AppendIfNotContainsInt", ai, wa)
		wu := append([]int{}, a...)
		for _, y := range b {
			if !in(y, wu) {
				wu = append(wu, y)
			}
		}
		expect("UnionIntList", Glob.UnionIntList(append([]int{}, a...), b), wu)
		wi := []int{}
		for _, y := range a {
			if in(y, b) && !in(y, wi) {
				wi = append(wi, y)
			}
		}
		expect("InterIntList", Glob.InterIntList(a, b), wi)
		cp := Glob.CopyIntList(a)
		expect("CopyIntList", cp, a)
		if len(cp) > 0 {
			was := fmt.Sprint(a)
			cp[0]++
			expect("the original after a change of its copy", fmt.Sprint(a), was)
		}
		// Pairs and triplets
		p, q, r, s := g.Intn(3), g.Intn(3), g.Intn(3), g.Intn(3)
		I := func(x int) Glob.Integer { return Glob.Integer(x) }
		expect(fmt.Sprintf("BasicPair(%d,%d) = (%d,%d)", p, q, r, s), Glob.NewBasicPair(I(p), I(q)).Equals(Glob.NewBasicPair(I(r), I(s))), p == r && q == s)
		expect(fmt.Sprintf("UnorderedBasicPair(%d,%d) = (%d,%d)", p, q, r, s), Glob.NewUnorderedBasicPair(I(p), I(q)).Equals(Glob.NewUnorderedBasicPair(I(r), I(s))), (p == r && q == s) || (p == s && q == r))
		t, u := g.Intn(3), g.Intn(3)
		expect(fmt.Sprintf("Triplet(%d,%d,%d) = (%d,%d,%d)", p, q, t, r, s, u), Glob.NewTriplet(I(p), I(q), I(t)).Equals(Glob.NewTriplet(I(r), I(s), I(u))), p == r && q == s && t == u)
		l1, l2 := []int{p, q, t}, []int{r, s, u}
		sort.Ints(l1)
		sort.Ints(l2)
		ut := Glob.NewUnorderedTriplet(I(p), I(q), I(t)).Equals(Glob.NewUnorderedTriplet(I(r), I(s), I(u)))
		if eqInts(l1, l2) && !ut {
			c.Failf("unordered triplets of %v and %v differ", l1, l2)
		}
		for _, y := range []int{0, 1, 2} {
			if ut && in(y, l1) != in(y, l2) {
				c.Failf("unordered triplets of %v and %v are equal", l1, l2)
			}
		}
		// Options and sums
		half := func(x int) Lib.Option[int] {
			if x%2 == 0 {
				return Lib.MkSome(x / 2)
			}
			return Lib.MkNone[int]()
		}
		res := Lib.OptBind(Lib.OptBind(Lib.MkSome(x), half), half)
		switch o := res.(type) {
		case Lib.Some[int]:
			expect("OptBind", o.Val*4, x)
		case Lib.None[int]:
			expect("OptBind of a multiple of 4", x%4 == 0, false)
		default:
			c.Failf("OptBind gives neither Some nor None")
		}
		if _, ok := Lib.OptBind(Lib.MkNone[int](), half).(Lib.None[int]); !ok {
			c.Failf("OptBind of None is not None")
		}
		mk := func(side, v int) Lib.Either[Lib.Int, Lib.String] {
			if side == 0 {
				return Lib.MkLeft[Lib.Int, Lib.String](Lib.MkInt(v))
			}
			return Lib.MkRight[Lib.Int, Lib.String](Lib.MkString(fmt.Sprint(v)))
		}
		s1, s2 := g.Intn(2), g.Intn(2)
		expect("EitherEquals", Lib.EitherEquals[Lib.Int, Lib.String](mk(s1, p), mk(s2, q)), s1 == s2 && p == q)
		expect("Int.Less", Lib.MkInt(p).Less(Lib.MkInt(q)), p < q)
		expect("String.Less", Lib.MkString(fmt.Sprint(p)).Less(Lib.MkString(fmt.Sprint(q))), fmt.Sprint(p) < fmt.Sprint(q))
		expect("String.Equals", Lib.MkString(fmt.Sprint(p)).Equals(Lib.MkString(fmt.Sprint(q))), p == q)
		// Lazy runs its function when asked
		runs := 0
		lz := Lib.MkLazy(func() int { runs++; return x })
		expect("Lazy before", runs, 0)
		expect("Lazy", lz.Run(), x)
		// Cache: computed once, on the first demand, unless told that the data is right
		calls := 0
		ch := Lib.MkCache(7, func(k int) int { calls++; return k + 100 })
		avoid := g.Chance(1, 2)
		if avoid {
			ch.AvoidUpd()
			expect("Cache", ch.Get(x), 7)
			expect("NeedsUpd", ch.NeedsUpd(), false)
		} else {
			expect("NeedsUpd", ch.NeedsUpd(), true)
			expect("Raw", ch.Raw(), 7)
			expect("Cache", ch.Get(x), x+100)
			expect("Cache again", ch.Get(x+1), x+100)
			expect("calls", calls, 1)
			cc := ch.Copy(func(v int) int { return v + 1 })
			expect("Copy of a cache", cc.Get(x), x+101)
		}
		// Parallel reduction with an associative and commutative operation
		fs := []func(chan int){}
		tot := 0
		for k := range a {
			v := a[k]
			tot += v
			fs = append(fs, func(ch chan int) { ch <- v })
		}
		sum, err := Lib.GenericParallel(fs, func(x, y int) int { return x + y }, 0)
		expect("GenericParallel", fmt.Sprint(sum, err), fmt.Sprint(tot, nil))
		// Counter: the hook runs each time the counter comes back to zero
		fired := 0
		sc := Glob.NewSyncCounter(func() { fired++ })
		v, want := 0, 0
		for k := 0; k < 3*g.Size; k++ {
			if v == 0 || g.Chance(1, 2) {
				sc.Increment()
				v++
			} else {
				sc.Decrement()
				v--
				if v == 0 {
					want++
				}
			}
		}
		expect("SyncCounter", fmt.Sprint(sc.Value(), fired), fmt.Sprint(v, want))
		c.Key = fmt.Sprint(a, b, p, q, r, s, t, u, x, s1, s2, avoid)
		c.Nontrivial = len(a)+len(b) >= 3
		c.Sample = c.Key
	})

	// Synchronised containers under concurrent use: nothing is lost, nothing is there twice
	Register("concurrent", 10, func(g *G, c *Case) {
		type I = Glob.Integer
		n, k := 2+g.Intn(6), 1+g.Intn(1+4*g.Size)
		l, s, m := Glob.NewSyncList[I](), Glob.NewSyncSet[I](), Glob.NewSyncMap[I, I]()
		ml := Glob.NewSyncMapWithList[I, I]()
		var wg sync.WaitGroup
		for w := 0; w < n; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < k; i++ {
					l.Append(I(i))
					s.Append(I(i % 7))
					m.Set(I(i%5), I(w))
					ml.AddIfNotContains(I(i%3), I(i))
				}
			}(w)
		}
		wg.Wait()
		mn := func(a, b int) int {
			if a < b {
				return a
			}
			return b
		}
		if l.Len() != n*k {
			c.Failf("%d goroutines appended %d elements each, the list has %d", n, k, l.Len())
		}
		if s.Len() != mn(k, 7) {
			c.Failf("set of %d values has %d elements", mn(k, 7), s.Len())
		}
		if m.Length() != mn(k, 5) {
			c.Failf("map of %d keys has %d", mn(k, 5), m.Length())
		}
		tot := 0
		for _, key := range ml.Keys() {
			v, _ := ml.GetExists(key)
			tot += v.Len()
		}
		if tot != k {
			c.Failf("%d distinct values were put in lists of a map that hold %d", k, tot)
		}
		c.Key = fmt.Sprint(n, k)
		c.Nontrivial = k >= 2
		c.Sample = fmt.Sprintf("%d goroutines, %d operations each", n, k)
	})
}
