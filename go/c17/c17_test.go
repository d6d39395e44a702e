package vft

import (
	"fmt"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Unif"
)

// judgeUnifier says what is wrong with sub as a most general unifier of the pair, "" when nothing is.
func judgeUnifier(sub Sub, a, b *T) string {
	mgu, ok := solve(Sub{}, [][2]*T{{a, b}})
	if !ok {
		return fmt.Sprintf("%v and %v are not unifiable, the answer is %v", a, b, sub)
	}
	fa, fb := sub.Full(a), sub.Full(b)
	if fa == nil || fb == nil {
		return fmt.Sprintf("%v, given for %v and %v, is cyclic", sub, a, b)
	}
	if !fa.Eq(fb) {
		return fmt.Sprintf("%v does not unify %v and %v", sub, a, b)
	}
	for k, v := range sub {
		if !mgu.Once(&T{S: k}).Eq(mgu.Once(v)) {
			return fmt.Sprintf("%v is not a most general unifier of %v and %v (%v is)", sub, a, b, mgu)
		}
	}
	return ""
}

func atomsOf(g *G, sig *Sig, vars []string, depth int) func() *T {
	preds := map[string]int{"p": 1, "q": 2, "r": 3, "s": 0}
	names := []string{"p", "q", "q", "r", "r", "s"}
	if g.Chance(1, 3) {
		names = []string{Pick(g, "p", "q", "r")}
	}
	made := []*T{}
	return func() *T {
		if len(made) > 0 && g.Chance(1, 2) {
			x := made[g.Intn(len(made))]
			y := &T{S: x.S, Args: append([]*T{}, x.Args...)}
			if len(y.Args) > 0 {
				i := g.Intn(len(y.Args))
				y.Args[i] = g.Mutate(sig, vars, y.Args[i], depth)
			}
			made = append(made, y)
			return y
		}
		n := names[g.Intn(len(names))]
		x := &T{S: n}
		for i := 0; i < preds[n]; i++ {
			x.Args = append(x.Args, g.Term(sig, vars, depth))
		}
		made = append(made, x)
		return x
	}
}

func pickSig(g *G) *Sig {
	switch g.Intn(4) {
	case 0:
		return mkSig(map[string]int{"a": 0, "f": 1, "h": 2})
	case 1:
		return mkSig(map[string]int{"a": 0, "b": 0, "h": 2})
	case 2:
		return mkSig(map[string]int{"a": 0, "f": 1, "g": 1, "t": 3})
	}
	return defaultSig
}

func init() {
	Register("index", 24, func(g *G, c *Case) {
		sig := pickSig(g)
		vars := varNames(g.Intn(5))
		depth := g.Intn(2 + g.Size/6)
		w := newWorld(g, vars)
		atom := atomsOf(g, sig, vars, depth)
		stored := []*T{}
		for i := 0; i < 1+g.Upto(g.Size); i++ {
			stored = append(stored, atom())
		}
		forms := Lib.NewList[AST.Form]()
		later := Lib.NewList[AST.Form]()
		pos := g.Chance(1, 2)
		for _, a := range stored {
			f := w.Atom(a)
			if !pos {
				f = AST.MakerNot(f)
			}
			if g.Chance(1, 4) && forms.Len() > 0 {
				later.Append(f)
			} else {
				forms.Append(f)
			}
		}
		// literals of the other polarity and other formulas do not belong in this index
		decoys := 0
		for i := 0; i < g.Intn(3); i++ {
			d := w.Atom(atom())
			if pos {
				d = AST.MakerNot(d)
			}
			if g.Chance(1, 3) {
				d = AST.MakerOr(Lib.MkListV[AST.Form](d, d))
			}
			forms.Append(d)
			decoys++
		}
		tree := Unif.NewNode().MakeDataStruct(forms, pos)
		if !later.Empty() {
			tree = tree.InsertFormulaListToDataStructure(later)
		}
		if g.Chance(1, 3) {
			cp := tree.Copy()
			extra := Lib.MkListV[AST.Form](w.Atom(atom()))
			if !forms.Empty() {
				tree.Copy().InsertFormulaListToDataStructure(extra)
			}
			tree = cp
		}
		unified := 0
		for q := 0; q < 3 && c.Fail == ""; q++ {
			query := atom()
			ok, res := tree.Unify(w.Atom(query))
			got := map[string]bool{}
			for _, r := range res {
				a := w.FromAtom(r.GetForm())
				known := false
				for _, s := range stored {
					known = known || s.Eq(a)
				}
				if !known {
					c.Failf("query %v in %v gives %v, which was not stored", query, stored, a)
				}
				sub, bad := w.FromSubst(r.GetTrmSubsts())
				if bad != "" {
					c.Failf("query %v in %v: %s", query, stored, bad)
				}
				if why := judgeUnifier(sub, a, query); why != "" {
					c.Failf("stored %v: %s", stored, why)
				}
				got[a.String()] = true
			}
			any_ := false
			for _, s := range stored {
				if _, can := solve(Sub{}, [][2]*T{{s, query}}); can {
					any_ = true
					unified++
					if !got[s.String()] {
						c.Failf("query %v misses %v in %v", query, s, stored)
					}
				}
			}
			if ok != any_ {
				c.Failf("query %v in %v answers %v", query, stored, ok)
			}
		}
		c.Key = fmt.Sprint(stored, vars, pos)
		c.Nontrivial = unified > 0 && len(stored) > 1
		c.Sample = fmt.Sprintf("%v: %d unifiable pairs", stored, unified)
	})

	Register("term-index", 24, func(g *G, c *Case) {
		sig := pickSig(g)
		vars := varNames(g.Intn(5))
		depth := 1 + g.Intn(2+g.Size/6)
		w := newWorld(g, vars)
		stored := []*T{}
		forms := Lib.NewList[AST.Form]()
		nonvar := func() *T {
			for {
				t := g.Term(sig, vars, depth)
				if len(stored) > 0 && g.Chance(1, 2) {
					t = g.Mutate(sig, vars, stored[g.Intn(len(stored))], depth)
				}
				if !t.IsVar() {
					return t
				}
			}
		}
		for i := 0; i < 1+g.Upto(g.Size/2); i++ {
			t := nonvar()
			stored = append(stored, t)
			forms.Append(Unif.MakerTermForm(w.To(t)))
		}
		tree := Unif.NewNode().MakeDataStruct(forms, true)
		unified := 0
		for q := 0; q < 2 && c.Fail == ""; q++ {
			query := nonvar()
			_, res := tree.Unify(Unif.MakerTermForm(w.To(query)))
			got := map[string]bool{}
			for _, r := range res {
				tf, isTerm := r.GetForm().(Unif.TermForm)
				if !isTerm {
					c.Failf("query %v in %v gives a %T", query, stored, r.GetForm())
					continue
				}
				a := w.From(tf.GetTerm())
				sub, bad := w.FromSubst(r.GetTrmSubsts())
				if bad != "" {
					c.Failf("query %v in %v: %s", query, stored, bad)
				}
				if why := judgeUnifier(sub, a, query); why != "" {
					c.Failf("stored terms %v: %s", stored, why)
				}
				got[a.String()] = true
			}
			for _, s := range stored {
				if _, can := solve(Sub{}, [][2]*T{{s, query}}); can {
					unified++
					if !got[s.String()] {
						c.Failf("query %v misses %v in the terms %v", query, s, stored)
					}
				}
			}
		}
		c.Key = fmt.Sprint(stored, vars)
		c.Nontrivial = unified > 0 && len(stored) > 1
		c.Sample = fmt.Sprintf("%v: %d unifiable pairs", stored, unified)
	})

	Register("unify", 30, func(g *G, c *Case) {
		sig := pickSig(g)
		vars := varNames(g.Intn(6))
		depth := g.Intn(2 + g.Size/6)
		w := newWorld(g, vars)
		a := g.Term(sig, vars, depth)
		b := g.Mutate(sig, vars, a, depth)
		if g.Chance(1, 4) {
			b = g.Term(sig, vars, depth)
		}
		// start from nothing, or from a most general unifier of another pair
		start := Sub{}
		if len(vars) > 0 && g.Chance(1, 2) {
			x := g.Term(sig, vars, depth)
			if s, ok := solve(Sub{}, [][2]*T{{x, g.Mutate(sig, vars, x, depth)}}); ok {
				start = s
			}
		}
		perm := []string{}
		for _, i := range g.Perm(len(vars)) {
			perm = append(perm, vars[i])
		}
		in := w.ToSubst(start, perm)
		res := Unif.AddUnification(w.To(a), w.To(b), in.Copy())
		want, ok := solve(start, [][2]*T{{a, b}})
		if fail := res.Equals(Unif.Failure()); fail == ok {
			c.Failf("unifying %v and %v under %v: failure %v", a, b, start, fail)
		} else if ok {
			sub, bad := w.FromSubst(res)
			if bad != "" {
				c.Failf("unifying %v and %v under %v: %s", a, b, start, bad)
			}
			full := Sub{}
			for k := range sub {
				t := sub.Full(&T{S: k})
				if t == nil {
					c.Failf("unifying %v and %v under %v gives the cyclic %v", a, b, start, sub)
					break
				}
				if !(t.IsVar() && t.S == k) {
					full[k] = t
				}
			}
			if c.Fail == "" && !equivalent(full, want) {
				c.Failf("unifying %v and %v under %v gives %v, expected %v", a, b, start, sub, want)
			}
		}
		c.Key = fmt.Sprint(a, b, start)
		c.Nontrivial = len(vars) > 0 && a.Size()+b.Size() > 4
		c.Sample = fmt.Sprintf("%v = %v under %v: %v", a, b, start, ok)
	})
}

func init() {
	Register("typed-index", 20, func(g *G, c *Case) {
		vars, tyvars := varNames(g.Intn(4)), []string{}
		for i := 0; i < g.Intn(4); i++ {
			tyvars = append(tyvars, fmt.Sprintf("A%d", i))
		}
		w := newTyWorld(g, vars, tyvars)
		depth := 1 + g.Intn(1+g.Size/6)
		ty := func() *T { return g.Type(tyvars, 2) }
		tm := func() *T { return g.TyTerm(vars, tyvars, depth) }
		atom := func() *T {
			switch g.Intn(4) {
			case 0:
				return &T{S: "p", Args: []*T{tm(), tm()}}
			case 1:
				return &T{S: "qq", Args: []*T{ty(), ty(), tm(), tm()}}
			}
			return &T{S: "pp", Args: []*T{ty(), tm()}}
		}
		stored := []*T{}
		forms := Lib.NewList[AST.Form]()
		for i := 0; i < 1+g.Upto(g.Size/2); i++ {
			a := atom()
			stored = append(stored, a)
			forms.Append(w.Pred(a))
		}
		tree := Unif.NewNode().MakeDataStruct(forms, true)
		unified := 0
		for q := 0; q < 2 && c.Fail == ""; q++ {
			query := atom()
			_, res := tree.Unify(w.Pred(query))
			got := map[string]bool{}
			for _, r := range res {
				p := r.GetForm().(AST.Pred)
				a := w.fromArgs(p.GetID().GetName(), p.GetTyArgs(), p.GetArgs())
				sub := Sub{}
				put := func(k string, v *T) {
					if _, ok := sub[k]; ok {
						c.Failf("%s bound twice", k)
					}
					sub[k] = v
				}
				for _, s := range r.GetTrmSubsts() {
					k, v := s.Get()
					put(w.From(k).S, w.FromTerm(v))
				}
				for _, s := range r.GetTySubsts().GetSlice() {
					k, v := s.Get()
					put(w.From(k.ToTermMeta()).S, w.From(AST.TyToTerm(v)))
				}
				if why := judgeUnifier(sub, a, query); why != "" {
					c.Failf("stored %v: %s", stored, why)
				}
				got[a.String()] = true
			}
			for _, s := range stored {
				if _, can := solve(Sub{}, [][2]*T{{s, query}}); can {
					unified++
					if !got[s.String()] {
						c.Failf("query %v misses %v in %v", query, s, stored)
					}
				}
			}
		}
		c.Key = fmt.Sprint(stored, vars, tyvars)
		c.Nontrivial = unified > 0 && len(tyvars) > 0
		c.Sample = fmt.Sprintf("%v: %d unifiable pairs", stored, unified)
	})
}
