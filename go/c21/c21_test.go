package vft

import (
	"fmt"
	"strings"

	"github.com/GoelandProver/Goeland/Mods/equality/eqStruct"
)

// The lexicographic path ordering, from its definition, with symbols ordered by name.
// A variable is smaller than the terms that contain it and not comparable to the others.
func lpoGreater(s, t *T) bool {
	if s.Eq(t) || s.IsVar() {
		return false
	}
	if t.IsVar() {
		m := map[string]bool{}
		s.Vars(m)
		return m[t.S]
	}
	for _, a := range s.Args {
		if a.Eq(t) || lpoGreater(a, t) {
			return true
		}
	}
	for _, b := range t.Args {
		if !lpoGreater(s, b) {
			return false
		}
	}
	if s.S != t.S {
		return s.S > t.S
	}
	for i := range s.Args {
		if !s.Args[i].Eq(t.Args[i]) {
			return lpoGreater(s.Args[i], t.Args[i])
		}
	}
	return false
}

func refOrder(s, t *T) (int, bool) {
	switch {
	case s.Eq(t):
		return 0, true
	case lpoGreater(s, t):
		return -1, true
	case lpoGreater(t, s):
		return 1, true
	}
	return 0, false
}

func related(g *G, sig *Sig, vars []string, depth int, t *T) *T {
	switch g.Intn(5) {
	case 0:
		return g.Term(sig, vars, depth)
	case 1:
		return t
	case 2: // a subterm
		for len(t.Args) > 0 && g.Chance(3, 4) {
			t = t.Args[g.Intn(len(t.Args))]
		}
		return t
	case 3: // the same head
		r := &T{S: t.S}
		for _, a := range t.Args {
			if g.Chance(1, 2) {
				r.Args = append(r.Args, a)
			} else {
				r.Args = append(r.Args, g.Term(sig, vars, depth-1))
			}
		}
		if t.IsVar() {
			return g.Term(sig, vars, depth)
		}
		return r
	}
	return g.Mutate(sig, vars, t, depth)
}

func pickSig21(g *G) *Sig {
	switch g.Intn(4) {
	case 0:
		return mkSig(map[string]int{"a": 0, "f": 1, "h": 2})
	case 1:
		return mkSig(map[string]int{"m": 0, "z": 0, "g": 1, "a": 2})
	case 2:
		return mkSig(map[string]int{"a": 0, "b": 0, "t": 3, "f1": 1, "f10": 1, "f2": 1})
	}
	return defaultSig
}

func init() {
	Register("ground", 24, func(g *G, c *Case) {
		InitDebugger()
		sig := pickSig21(g)
		w := newWorld(g, nil)
		depth := 1 + g.Intn(1+g.Size/6)
		s := g.Term(sig, nil, depth)
		t := related(g, sig, nil, depth, s)
		cs := compareLPO(w.To(s), w.To(t))
		want, _ := refOrder(s, t)
		if !cs.is_comparable || cs.order != want {
			c.Failf("%v against %v: %d (comparable %v), expected %d", s, t, cs.order, cs.is_comparable, want)
		}
		if back := compareLPO(w.To(t), w.To(s)); !back.is_comparable || back.order != -cs.order {
			c.Failf("%v against %v: %d, and %d the other way", s, t, cs.order, back.order)
		}
		u := related(g, sig, nil, depth, t)
		st, tu, su := cs.order, compareLPO(w.To(t), w.To(u)).order, compareLPO(w.To(s), w.To(u)).order
		if st >= 0 && tu >= 0 && (su < 0 || su == 0 && st+tu > 0) {
			c.Failf("%v <= %v <= %v, yet the first against the last gives %d", s, t, u, su)
		}
		if !s.Eq(t) {
			// replacement inside a term keeps the order, a term is above its arguments
			f := sig.names[g.Intn(len(sig.names))]
			if n := sig.Syms[f]; n > 0 {
				x, y := &T{S: f}, &T{S: f}
				at := g.Intn(n)
				for i := 0; i < n; i++ {
					o := g.Term(sig, nil, 1)
					if i == at {
						x.Args, y.Args = append(x.Args, s), append(y.Args, t)
					} else {
						x.Args, y.Args = append(x.Args, o), append(y.Args, o)
					}
				}
				if r := compareLPO(w.To(x), w.To(y)); r.order != st {
					c.Failf("%v against %v gives %d, %v against %v gives %d", s, t, st, x, y, r.order)
				}
				if r := compareLPO(w.To(s), w.To(x)); r.order != 1 {
					c.Failf("%v is not below %v", s, x)
				}
			}
		}
		c.Key, c.Nontrivial, c.Sample = fmt.Sprint(s, t, u), s.Size()+t.Size() > 4 && !s.Eq(t), fmt.Sprintf("%v against %v: %d", s, t, cs.order)
	})

	// What is said of terms with metavariables holds for all their instances.
	Register("stable", 24, func(g *G, c *Case) {
		InitDebugger()
		sig := pickSig21(g)
		vars := varNames(1 + g.Intn(3))
		w := newWorld(g, vars)
		depth := 1 + g.Intn(1+g.Size/6)
		s := g.Term(sig, vars, depth)
		t := related(g, sig, vars, depth, s)
		cs := compareLPO(w.To(s), w.To(t))
		want, can := refOrder(s, t)
		if cs.is_comparable && (!can || cs.order != want) {
			c.Failf("%v against %v: %d, expected %d (comparable %v)", s, t, cs.order, want, can)
		}
		if s.Eq(t) && !cs.is_comparable {
			c.Failf("%v is not found equal to itself", s)
		}
		if t.IsVar() && can && !cs.is_comparable || s.IsVar() && can && !cs.is_comparable {
			c.Failf("%v against %v: not comparable, expected %d", s, t, want)
		}
		if !cs.is_comparable && (cs.new_t1 == nil || cs.new_t2 == nil) {
			c.Failf("%v against %v: no constraint left", s, t)
		}
		for i := 0; i < 3; i++ {
			sub := Sub{}
			for _, v := range vars {
				sub[v] = g.Term(sig, nil, 2)
			}
			si, ti := sub.Once(s), sub.Once(t)
			r := compareLPO(w.To(si), w.To(ti))
			if cs.is_comparable && r.order != cs.order {
				c.Failf("%v against %v: %d, instance %v against %v: %d", s, t, cs.order, si, ti, r.order)
			}
		}
		c.Key, c.Nontrivial, c.Sample = fmt.Sprint(s, t), cs.is_comparable && !s.Eq(t) && s.Size()+t.Size() > 3, fmt.Sprintf("%v against %v: %d %v", s, t, cs.order, cs.is_comparable)
	})

	// Constraints that have a solution are never refused; constraints between ground terms are judged exactly.
	Register("constraints", 24, func(g *G, c *Case) {
		InitDebugger()
		sig := pickSig21(g)
		vars := varNames(g.Intn(4))
		w := newWorld(g, vars)
		depth := 1 + g.Intn(1+g.Size/8)
		sub := Sub{}
		for _, v := range vars {
			sub[v] = g.Term(sig, nil, 2)
		}
		cs := makeEmptyConstraintStruct()
		said := []string{}
		pending := 0
		for i := 0; i < 1+g.Upto(g.Size/3) && c.Fail == ""; i++ {
			s := g.Term(sig, vars, depth)
			t := related(g, sig, vars, depth, s)
			o, _ := refOrder(sub.Once(s), sub.Once(t))
			kind, sign := PREC, "<"
			if o == 0 {
				kind, sign = EQ, "="
			} else if o < 0 {
				s, t = t, s
			}
			if kind == PREC && len(vars) == 0 && g.Chance(1, 3) {
				if n := cs.copy(); n.appendIfConsistant(MakeConstraint(PREC, eqStruct.MakeTermPair(w.To(t), w.To(s)))) {
					c.Failf("%v < %v is accepted", t, s)
				}
			}
			before := cs.copy()
			said = append(said, fmt.Sprintf("%v %s %v", s, sign, t))
			if !cs.appendIfConsistant(MakeConstraint(kind, eqStruct.MakeTermPair(w.To(s), w.To(t)))) {
				c.Failf("%s: the last one is refused, though %v is a solution", strings.Join(said, ", "), sub)
			}
			if len(cs.getAllConstraints()) > len(before.getAllConstraints()) {
				pending++
			}
			_ = before
		}
		if got, bad := w.FromSubst(cs.getSubst()); bad != "" {
			c.Failf("%s: %s", strings.Join(said, ", "), bad)
		} else {
			for k, v := range got {
				if !sub.Once(&T{S: k}).Eq(sub.Once(v)) {
					c.Failf("%s: the substitution %v excludes the solution %v", strings.Join(said, ", "), got, sub)
				}
			}
		}
		c.Key, c.Nontrivial, c.Sample = strings.Join(said, ", "), pending > 1, strings.Join(said, ", ")
	})
}
