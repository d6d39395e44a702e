package vft

import (
	"fmt"
	"sort"
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Unif"
)

type mixed = Lib.List[Unif.MixedSubstitution]

// Idempotent substitution solving a few random equations.
func (g *G) Idem(sig *Sig, vars []string, eqs, depth int) Sub {
	s := Sub{}
	for i := 0; i < eqs; i++ {
		a := &T{S: vars[g.Intn(len(vars))]}
		b := g.Term(sig, vars, depth)
		if g.Chance(1, 3) {
			b = &T{S: vars[g.Intn(len(vars))]}
		}
		if r, ok := solve(s, [][2]*T{{a, b}}); ok {
			s = r
		}
	}
	return s
}

// Idem over typed terms: type variables get types, the others get terms.
func (g *G) TyIdem(vars, tyvars []string, eqs, depth int) Sub {
	s := Sub{}
	for i := 0; i < eqs; i++ {
		var a, b *T
		if len(tyvars) > 0 && g.Chance(2, 5) {
			a, b = &T{S: tyvars[g.Intn(len(tyvars))]}, g.Type(tyvars, 2)
		} else if len(vars) > 0 {
			a, b = &T{S: vars[g.Intn(len(vars))]}, g.TyTerm(vars, tyvars, depth)
		} else {
			continue
		}
		if r, ok := solve(s, [][2]*T{{a, b}}); ok {
			s = r
		}
	}
	return s
}

func keysOf(g *G, s Sub) []string {
	ks := []string{}
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	g.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	return ks
}

func trivial(s Sub) Sub {
	r := Sub{}
	for k, v := range s {
		if v.S != k {
			r[k] = v
		}
	}
	return r
}

func idempotent(s Sub) bool {
	s = trivial(s)
	for _, v := range s {
		if !s.Once(v).Eq(v) {
			return false
		}
	}
	return true
}

func (w *World) Mixed(g *G, s Sub) mixed {
	return Unif.FromSubstitutions(w.ToSubst(s, keysOf(g, s)))
}

func (w *World) FromMixed(l mixed) (Sub, string) {
	return w.FromSubst(Unif.ToSubstitutions(l))
}

func (w *tyWorld) Mixed(g *G, s Sub) mixed {
	l := Lib.NewList[Unif.MixedSubstitution]()
	for _, k := range keysOf(g, s) {
		if ty, ok := w.tys[k]; ok {
			l.Append(Unif.MkMixedFromTy(Unif.MkTySubstitution(ty.(AST.TyMeta), w.Ty(s[k]))))
		} else {
			l.Append(Unif.MkMixedFromSubst(Unif.MakeSubstitution(w.metas[k], w.Term(s[k]))))
		}
	}
	return l
}

func (w *tyWorld) FromMixed(l mixed) (Sub, string) {
	r := Sub{}
	bad := ""
	put := func(k string, v *T) {
		if o, ok := r[k]; ok && !o.Eq(v) {
			bad = k + " is bound twice"
		}
		r[k] = v
	}
	for _, m := range l.GetSlice() {
		switch s := m.GetMixed().(type) {
		case Lib.Left[Unif.TySubstitution, Unif.Substitution]:
			k, v := s.Val.Get()
			put(w.From(k.ToTermMeta()).S, w.From(AST.TyToTerm(v)))
		case Lib.Right[Unif.TySubstitution, Unif.Substitution]:
			k, v := s.Val.Get()
			put(w.From(k).S, w.FromTerm(v))
		}
	}
	return r, bad
}

func judgeMerge(c *Case, s1, s2 Sub, ok bool, got Sub, bad string) {
	want, can := solve(s1, eqsOf(s2))
	switch {
	case ok != can:
		c.Failf("merging %v and %v answers %v", s1, s2, ok)
	case !ok:
	case bad != "":
		c.Failf("merging %v and %v: %s", s1, s2, bad)
	case !idempotent(got):
		c.Failf("merging %v and %v gives %v, which has still to be applied to itself", s1, s2, got)
	case !equivalent(trivial(got), want):
		c.Failf("merging %v and %v gives %v, expected %v", s1, s2, got, want)
	}
	c.Key = fmt.Sprint(s1, s2)
	c.Nontrivial = len(s1) > 0 && len(s2) > 0
	c.Sample = fmt.Sprintf("%v with %v: %v", s1, s2, can)
}

func init() {
	Register("merge", 24, func(g *G, c *Case) {
		sig := pickSig18(g)
		vars := varNames(2 + g.Intn(5))
		depth := g.Intn(2 + g.Size/8)
		w := newWorld(g, vars)
		s1, s2 := g.Idem(sig, vars, g.Upto(1+g.Size/5), depth), g.Idem(sig, vars, g.Upto(1+g.Size/5), depth)
		if g.Chance(1, 6) {
			// a refinement of the first one
			s2 = Sub{}
			if r, ok := solve(s1, eqsOf(g.Idem(sig, vars, 1, depth))); ok {
				s2 = r
			}
		}
		if g.Chance(1, 2) {
			u1, u2 := w.ToSubst(s1, keysOf(g, s1)), w.ToSubst(s2, keysOf(g, s2))
			k1, k2 := u1.Copy(), u2.Copy()
			m, _ := Unif.MergeSubstitutions(u1, u2)
			ok := !m.Equals(Unif.Failure())
			got, bad := Sub{}, ""
			if ok {
				got, bad = w.FromSubst(m)
			}
			judgeMerge(c, s1, s2, ok, got, bad)
			if !u1.Equals(k1) || !u2.Equals(k2) {
				c.Failf("merging %v and %v changes its arguments", s1, s2)
			}
		} else {
			m, ok := Unif.MergeMixedSubstitutions(w.Mixed(g, s1), w.Mixed(g, s2))
			got, bad := Sub{}, ""
			if ok {
				got, bad = w.FromMixed(m)
			}
			judgeMerge(c, s1, s2, ok, got, bad)
		}
	})

	Register("typed-merge", 24, func(g *G, c *Case) {
		vars, tyvars := varNames(g.Intn(4)), []string{}
		for i := 0; i < 1+g.Intn(3); i++ {
			tyvars = append(tyvars, fmt.Sprintf("A%d", i))
		}
		w := newTyWorld(g, vars, tyvars)
		depth := g.Intn(2 + g.Size/8)
		s1, s2 := g.TyIdem(vars, tyvars, g.Upto(1+g.Size/5), depth), g.TyIdem(vars, tyvars, g.Upto(1+g.Size/5), depth)
		m, ok := Unif.MergeMixedSubstitutions(w.Mixed(g, s1), w.Mixed(g, s2))
		got, bad := Sub{}, ""
		if ok {
			got, bad = w.FromMixed(m)
		}
		judgeMerge(c, s1, s2, ok, got, bad)
	})

	Register("apply", 20, func(g *G, c *Case) {
		vars, tyvars := varNames(1+g.Intn(4)), []string{}
		for i := 0; i < g.Intn(3); i++ {
			tyvars = append(tyvars, fmt.Sprintf("A%d", i))
		}
		w := newTyWorld(g, vars, tyvars)
		depth := 1 + g.Intn(2+g.Size/8)
		s := g.TyIdem(vars, tyvars, 1+g.Upto(1+g.Size/5), depth)
		ms := w.Mixed(g, s)
		t := g.TyTerm(vars, tyvars, depth)
		want := s.Once(t)
		c.Key, c.Sample = fmt.Sprint(s, t), fmt.Sprintf("%v on %v", s, t)
		c.Nontrivial = !want.Eq(t)
		in := w.Term(t)
		before := in.ToString()
		if got := w.FromTerm(Core.ApplySubstitutionsOnTerm(ms, in)); !got.Eq(want) {
			c.Failf("%v applied to %v gives %v", s, t, got)
		}
		if in.ToString() != before {
			c.Failf("applying %v to %v changes it", s, t)
		}
		u := g.TyTerm(vars, tyvars, depth)
		l := Core.ApplySubstitutionsOnTermList(ms, Lib.MkListV(in, w.Term(u), in))
		if l.Len() != 3 || !w.FromTerm(l.At(0)).Eq(want) || !w.FromTerm(l.At(1)).Eq(s.Once(u)) || !w.FromTerm(l.At(2)).Eq(want) {
			c.Failf("%v applied to the list %v, %v, %v gives %v", s, t, u, t, Lib.ListToString(l))
		}
		// one binding on a term
		if len(vars) > 0 {
			k := vars[g.Intn(len(vars))]
			v := g.TyTerm(vars, tyvars, depth)
			r := w.FromTerm(Core.ApplySubstitutionOnTerm(w.metas[k], w.Term(v), in))
			if want := (Sub{k: v}).Once(t); !r.Eq(want) {
				c.Failf("%s -> %v applied to %v gives %v", k, v, t, r)
			}
		}
		// formulas
		atom := &T{S: "p", Args: []*T{t, u}}
		wantAtom := s.Once(atom)
		if len(tyvars) > 0 {
			atom = &T{S: "pp", Args: []*T{g.Type(tyvars, 2), t}}
			wantAtom = s.Once(atom)
		}
		other := &T{S: "p", Args: []*T{u, u}}
		wantOther := s.Once(other)
		vx := AST.MakerTypedVar("Z", AST.TIndividual())
		mk := func(a, b *T, k int) AST.Form {
			f1, f2 := w.Pred(a), w.Pred(b)
			switch k {
			case 0:
				return AST.MakerNot(AST.MakerAnd(Lib.MkListV[AST.Form](f1, f2)))
			case 1:
				return AST.MakerOr(Lib.MkListV[AST.Form](f1, AST.MakerNot(f2)))
			case 2:
				return AST.MakerImp(f1, AST.MakerEqu(f2, f1))
			case 3:
				return AST.MakerAll(Lib.MkListV(vx), AST.MakerEx(Lib.MkListV(AST.MakerTypedVar("Z2", AST.TIndividual())), AST.MakerAnd(Lib.MkListV(f1, f2))))
			case 4:
				return AST.MakerNot(f1)
			}
			return f1
		}
		k := g.Intn(6)
		f := mk(atom, other, k)
		fs := f.ToString()
		r := Core.ApplySubstitutionsOnFormula(ms, f)
		if wf := mk(wantAtom, wantOther, k); !r.Equals(wf) || shape(r) != shape(wf) {
			c.Failf("%v applied to %s gives %s, expected %s", s, fs, r.ToString(), wf.ToString())
		}
		if f.ToString() != fs {
			c.Failf("applying %v to %s changes it into %s", s, fs, f.ToString())
		}
		// the metavariables of the result are those that occur in it
		left := map[string]bool{}
		wantAtom.Vars(left)
		if k < 4 {
			wantOther.Vars(left)
		}
		have := map[string]bool{}
		for _, m := range r.GetMetas().Elements().GetSlice() {
			have[w.From(m).S] = true
		}
		for _, v := range vars {
			if left[v] != have[v] {
				c.Failf("%v applied to %s gives %s, whose metavariables are said to be %v", s, fs, r.ToString(), have)
			}
		}
		fl := Core.ApplySubstitutionsOnFormulaList(ms, Lib.MkListV(f, w.Pred(other)))
		if !Lib.ListMem[AST.Form](mk(wantAtom, wantOther, k), fl) || !Lib.ListMem(w.Pred(wantOther), fl) || fl.Len() > 2 {
			c.Failf("%v applied to the list %s, %s gives %s", s, fs, w.Pred(other).ToString(), Lib.ListToString(fl))
		}
		fat := Core.ApplySubstitutionsOnFormAndTerms(ms, Core.MakeFormAndTerm(f, Lib.MkListV(in)))
		if wf := mk(wantAtom, wantOther, k); !fat.GetForm().Equals(wf) {
			c.Failf("%v applied to the formula with terms %s gives %s", s, fs, fat.GetForm().ToString())
		}
		fats := Core.ApplySubstitutionsOnFormAndTermsList(ms, Core.FormAndTermsList{Core.MakeFormAndTerm(f, Lib.MkListV(in))})
		if wf := mk(wantAtom, wantOther, k); len(fats) != 1 || !fats[0].GetForm().Equals(wf) {
			c.Failf("%v applied to the list of formulas with terms %s gives %s", s, fs, fats.ToString())
		}
	})

	// A child hands its father the part of the substitution that concerns the father's metavariables: the
	// instances of these metavariables stay the same, up to the names of the others.
	Register("restrict", 24, func(g *G, c *Case) {
		sig := pickSig18(g)
		vars := varNames(2 + g.Intn(6))
		depth := g.Intn(2 + g.Size/8)
		w := newWorld(g, vars)
		s := g.Idem(sig, vars, 1+g.Upto(1+g.Size/4), depth)
		mm := Lib.EmptySet[AST.Meta]()
		mother := []string{}
		for _, v := range vars {
			if g.Chance(1, 2) {
				mm = mm.Add(w.metas[v])
				mother = append(mother, v)
			}
		}
		// the prover binds a father's metavariable rather than leave it as value when it can choose neither way
		got, bad := w.FromMixed(Core.RemoveElementWithoutMM(w.Mixed(g, s), mm))
		if bad != "" {
			c.Failf("%v restricted to %v: %s", s, mother, bad)
		}
		got = trivial(got)
		if !idempotent(got) {
			c.Failf("%v restricted to %v gives %v, which has still to be applied to itself", s, mother, got)
		}
		a, b := &T{S: "tuple"}, &T{S: "tuple"}
		bound := false
		for _, v := range mother {
			a.Args = append(a.Args, s.Once(&T{S: v}))
			b.Args = append(b.Args, got.Once(&T{S: v}))
			_, in := s[v]
			bound = bound || in
		}
		if !variants(a, b) {
			c.Failf("%v restricted to %v gives %v: the instances of these are %v instead of %v", s, mother, got, b, a)
		}
		c.Key = fmt.Sprint(s, mother)
		c.Nontrivial = bound && len(mother) < len(vars)
		c.Sample = fmt.Sprintf("%v to %v: %v", s, mother, got)
	})

	Register("operations", 30, func(g *G, c *Case) {
		sig := pickSig18(g)
		vars := varNames(1 + g.Intn(5))
		w := newWorld(g, vars)
		s := Unif.MakeEmptySubstitution()
		model := Sub{}
		log := []string{}
		check := func(what string, s Unif.Substitutions, model Sub) {
			got, bad := w.FromSubst(s)
			if bad != "" {
				c.Failf("%s after %s: %s", what, strings.Join(log, "; "), bad)
			}
			if got.String() != model.String() || len(s) != len(model) {
				c.Failf("%s after %s is %v, expected %v", what, strings.Join(log, "; "), s.ToString(), model)
			}
			if s.IsEmpty() != (len(model) == 0) {
				c.Failf("%s after %s: IsEmpty is %v", what, strings.Join(log, "; "), s.IsEmpty())
			}
		}
		var old Unif.Substitutions
		var oldModel Sub
		for i := 0; i < 2+g.Upto(g.Size) && c.Fail == ""; i++ {
			v := vars[g.Intn(len(vars))]
			switch g.Intn(6) {
			case 0, 1, 2:
				t := g.Term(sig, vars, 2)
				s.Set(w.metas[v], w.To(t))
				model[v] = t
				log = append(log, fmt.Sprintf("set %s to %v", v, t))
			case 3:
				t, at := s.Get(w.metas[v])
				m, ok := model[v]
				log = append(log, "get "+v)
				if (at >= 0) != ok || ok && !w.From(t).Eq(m) || Unif.HasSubst(s, w.metas[v]) != ok {
					c.Failf("after %s, %s gives position %d", strings.Join(log, "; "), v, at)
				}
				if ok && g.Chance(1, 2) {
					s.Remove(at)
					delete(model, v)
					log = append(log, "remove it")
				}
			case 4:
				old, oldModel = s.Copy(), Sub{}
				for k, v := range model {
					oldModel[k] = v
				}
				log = append(log, "copy")
			case 5:
				p := w.ToSubst(model, keysOf(g, model))
				if !s.Equals(p) || !p.Equals(s) {
					c.Failf("after %s, %s does not equal %s", strings.Join(log, "; "), s.ToString(), p.ToString())
				}
				if len(model) > 0 {
					k := keysOf(g, model)[0]
					q := Sub{}
					for x, y := range model {
						q[x] = y
					}
					q[k] = &T{S: "other"}
					if r := w.ToSubst(q, keysOf(g, q)); s.Equals(r) || r.Equals(s) {
						c.Failf("after %s, %s equals %s", strings.Join(log, "; "), s.ToString(), r.ToString())
					}
					delete(q, k)
					r := w.ToSubst(q, keysOf(g, q))
					if s.Equals(r) || r.Equals(s) {
						c.Failf("after %s, %s equals %s", strings.Join(log, "; "), s.ToString(), r.ToString())
					}
					list := []Unif.Substitutions{r, w.ToSubst(oldModel, keysOf(g, oldModel))}
					in := oldModel != nil && oldModel.String() == model.String()
					if Unif.ContainsSubst(list, s) != in || len(Unif.AppendIfNotContainsSubst(Unif.CopySubstList(list), s)) != len(list)+b2i(!in) ||
						len(Unif.AddSubstToSubstitutionsList(list, s)) != len(list)+b2i(!in) {
						c.Failf("after %s, %s in %s: %v", strings.Join(log, "; "), s.ToString(), Unif.SubstListToString(list), !in)
					}
				}
			}
			check("the substitution", s, model)
			if old != nil {
				check("the copy", old, oldModel)
			}
		}
		c.Key = strings.Join(log, ";")
		c.Nontrivial = len(log) > 3
		c.Sample = c.Key
	})

	Register("occurs", 16, func(g *G, c *Case) {
		sig := pickSig18(g)
		vars := varNames(1 + g.Intn(4))
		w := newWorld(g, vars)
		v, t := vars[g.Intn(len(vars))], g.Term(sig, vars, 1+g.Intn(1+g.Size/4))
		m := map[string]bool{}
		t.Vars(m)
		if Unif.OccurCheckValid(w.metas[v], w.To(t)) == m[v] {
			c.Failf("occurs check of %s against %v: %v", v, t, m[v])
		}
		c.Key, c.Nontrivial, c.Sample = v+t.String(), len(t.Args) > 0, fmt.Sprintf("%s in %v: %v", v, t, m[v])
	})

	// Bindings that refer to one another are resolved, or refused when they are cyclic.
	Register("eliminate", 24, func(g *G, c *Case) {
		sig := pickSig18(g)
		vars := varNames(2 + g.Intn(5))
		depth := g.Intn(2 + g.Size/8)
		w := newWorld(g, vars)
		s := Sub{}
		for i, v := range g.Perm(len(vars)) {
			if g.Chance(2, 3) {
				from := vars
				if g.Chance(3, 4) {
					from = nil
					for j, x := range vars {
						if j != v && (j > i || g.Chance(1, 6)) {
							from = append(from, x)
						}
					}
				}
				if t := g.Term(sig, from, depth); t.S != vars[v] {
					s[vars[v]] = t
				}
			}
		}
		if len(s) == 0 {
			return
		}
		u := w.ToSubst(s, keysOf(g, s))
		Unif.Eliminate(&u)
		cyclic := false
		want := Sub{}
		for k := range s {
			t := s.Full(&T{S: k})
			if t == nil {
				cyclic = true
			} else {
				want[k] = t
			}
		}
		chain := false
		for _, t := range s {
			m := map[string]bool{}
			t.Vars(m)
			for x := range m {
				chain = chain || s[x] != nil
			}
		}
		if u.Equals(Unif.Failure()) != cyclic {
			c.Failf("resolving %v: %s", s, u.ToString())
		} else if !cyclic {
			got, bad := w.FromSubst(u)
			if bad != "" || got.String() != want.String() {
				c.Failf("resolving %v gives %v, expected %v", s, got, want)
			}
		}
		c.Key, c.Nontrivial, c.Sample = s.String(), chain, fmt.Sprintf("%v: cyclic %v", s, cyclic)
	})

	// The unifiers kept for the proof: merging the ones of two children keeps exactly the compatible pairs.
	Register("unifiers", 20, func(g *G, c *Case) {
		Glob.SetProof(true)
		sig := pickSig18(g)
		vars := varNames(2 + g.Intn(4))
		depth := g.Intn(2 + g.Size/8)
		w := newWorld(g, vars)
		n := 1 + g.Intn(3)
		us := []Core.Unifier{}
		subs := []Sub{}
		for i := 0; i < n; i++ {
			u := Core.MakeUnifier()
			if !u.IsEmpty() {
				c.Failf("a new unifier is not empty")
			}
			s := g.Idem(sig, vars, 1+g.Upto(1+g.Size/6), depth)
			u.AddSubstitutions(w.Mixed(g, s), w.Mixed(g, s))
			us = append(us, u)
			subs = append(subs, s)
		}
		want, can := subs[0], true
		for _, s := range subs[1:] {
			if can {
				want, can = solve(want, eqsOf(s))
			}
		}
		copies := []Core.Unifier{}
		for _, u := range us {
			copies = append(copies, u.Copy())
		}
		texts := []string{}
		for _, u := range us[1:] {
			texts = append(texts, u.ToString())
		}
		m := Core.MergeUnifierList(copies)
		if can {
			got, bad := w.FromMixed(m.GetUnifier())
			if m.IsEmpty() || bad != "" || !idempotent(got) || !equivalent(trivial(got), want) {
				c.Failf("the unifiers %v together give %v %s, expected %v", subs, got, bad, want)
			}
		} else if n == 2 && !m.IsEmpty() {
			// (with a third one, an empty result means that nothing has been recorded yet)
			c.Failf("the unifiers %v together give %v", subs, m.ToString())
		}
		for i, u := range us[1:] {
			if u.ToString() != texts[i] {
				c.Failf("merging changes %s into %s", texts[i], u.ToString())
			}
		}
		// pruning
		u := us[0].Copy()
		s := g.Idem(sig, vars, 1+g.Upto(1+g.Size/6), depth)
		u.PruneUncompatibleSubstitutions(w.Mixed(g, s))
		if _, ok := solve(subs[0], eqsOf(s)); ok == u.IsEmpty() {
			c.Failf("pruning the unifier %v with %v: empty is %v", subs[0], s, u.IsEmpty())
		}
		c.Key, c.Nontrivial, c.Sample = fmt.Sprint(subs, s), n > 1, fmt.Sprintf("%v: %v", subs, can)
	})

	Register("forms", 20, func(g *G, c *Case) {
		sig := pickSig18(g)
		vars := varNames(2 + g.Intn(4))
		depth := g.Intn(2 + g.Size/8)
		w := newWorld(g, vars)
		s1 := g.Idem(sig, vars, 1+g.Upto(1+g.Size/6), depth)
		s2 := g.Idem(sig, vars, 1+g.Upto(1+g.Size/6), depth)
		want, can := solve(s1, eqsOf(s2))
		if !can {
			return
		}
		atom := func() AST.Form { return w.Atom(&T{S: Pick(g, "p", "q"), Args: []*T{g.Term(sig, vars, 1)}}) }
		f1, f2 := Lib.MkListV(atom(), atom()), Lib.MkListV(atom())
		a, b := Core.MakeSubstAndForm(w.Mixed(g, s1), f1), Core.MakeSubstAndForm(w.Mixed(g, s2), f2)
		at, bt := a.ToString(), b.ToString()
		err, m := Core.MergeSubstAndForm(a, b)
		got, bad := w.FromMixed(m.GetSubst())
		if err != nil || bad != "" || !idempotent(got) || !equivalent(trivial(got), want) {
			c.Failf("merging %s and %s gives %s", at, bt, m.ToString())
		}
		for _, f := range append(f1.GetSlice(), f2.GetSlice()...) {
			if !Lib.ListMem(f, m.GetForm()) {
				c.Failf("merging %s and %s gives %s, without %s", at, bt, m.ToString(), f.ToString())
			}
		}
		for _, f := range m.GetForm().GetSlice() {
			if !Lib.ListMem(f, f1) && !Lib.ListMem(f, f2) {
				c.Failf("merging %s and %s gives %s", at, bt, m.ToString())
			}
		}
		if a.ToString() != at || b.ToString() != bt {
			c.Failf("merging %s and %s changes them", at, bt)
		}
		e := Core.MakeEmptySubstAndForm()
		if _, r := Core.MergeSubstAndForm(e, a); r.ToString() != at {
			c.Failf("merging nothing and %s gives %s", at, r.ToString())
		}
		if _, r := Core.MergeSubstAndForm(a, e); r.ToString() != at {
			c.Failf("merging %s and nothing gives %s", at, r.ToString())
		}
		more := a.AddFormulas(f2)
		if a.ToString() != at || !Lib.ListMem(f2.At(0), more.GetForm()) || !Lib.ListMem(f1.At(0), more.GetForm()) {
			c.Failf("adding %s to %s gives %s", Lib.ListToString(f2), at, more.ToString())
		}
		cp := a.Copy()
		cp.SetForm(f2)
		cp.SetSubst(w.Mixed(g, s2))
		if a.ToString() != at || cp.ToString() == at && s1.String() != s2.String() {
			c.Failf("changing a copy of %s gives %s", at, a.ToString())
		}
		c.Key, c.Nontrivial, c.Sample = fmt.Sprint(s1, s2), true, at+" with "+bt
	})

	// The father sorts the substitutions of its children by whether they concern its metavariables.
	Register("dispatch", 20, func(g *G, c *Case) {
		Glob.SetDestructive(true)
		sig := pickSig18(g)
		vars := varNames(2 + g.Intn(5))
		depth := g.Intn(2 + g.Size/8)
		w := newWorld(g, vars)
		mm := Lib.EmptySet[AST.Meta]()
		mother := map[string]bool{}
		for _, v := range vars {
			if g.Chance(1, 2) {
				mm = mm.Add(w.metas[v])
				mother[v] = true
			}
		}
		all := Lib.NewList[mixed]()
		concern, free := map[string]bool{}, map[string]bool{}
		for i := 0; i < 1+g.Upto(4); i++ {
			s := g.Idem(sig, vars, 1+g.Upto(1+g.Size/6), depth)
			all.Append(w.Mixed(g, s))
			a := &T{S: "tuple"}
			b := &T{S: "tuple"}
			for v := range mother {
				a.Args = append(a.Args, s.Once(&T{S: v}))
				b.Args = append(b.Args, &T{S: v})
			}
			if variants(a, b) {
				free[s.String()] = true
			} else {
				concern[s.String()] = true
			}
		}
		with, uncleared, without := Core.DispatchSubst(all, mm)
		read := func(l Lib.List[mixed]) map[string]bool {
			r := map[string]bool{}
			for _, x := range l.GetSlice() {
				s, _ := w.FromMixed(x)
				r[s.String()] = true
			}
			return r
		}
		if got := read(uncleared); fmt.Sprint(got) != fmt.Sprint(concern) {
			c.Failf("for %v, the substitutions found to matter are %v, expected %v", mother, got, concern)
		}
		if got := read(without); fmt.Sprint(got) != fmt.Sprint(free) {
			c.Failf("for %v, the substitutions found not to matter are %v, expected %v", mother, got, free)
		}
		if with.Len() > uncleared.Len() || with.Empty() != uncleared.Empty() {
			c.Failf("for %v, %d cleared substitutions for %d", mother, with.Len(), uncleared.Len())
		}
		c.Key, c.Nontrivial, c.Sample = fmt.Sprint(concern, free, mother), len(concern) > 0 && len(free) > 0, fmt.Sprintf("%v / %v for %v", concern, free, mother)
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// the connectives of a formula, down to its atoms
func shape(f AST.Form) string {
	s := fmt.Sprintf("%T", f)
	if _, ok := f.(AST.Pred); !ok {
		for _, x := range f.GetChildFormulas().GetSlice() {
			s += "(" + shape(x) + ")"
		}
	}
	return s
}

// equal up to a renaming of variables
func variants(a, b *T) bool {
	x, y := map[string]string{}, map[string]string{}
	var rec func(a, b *T) bool
	rec = func(a, b *T) bool {
		if a.IsVar() != b.IsVar() || len(a.Args) != len(b.Args) {
			return false
		}
		if a.IsVar() {
			u, ok1 := x[a.S]
			v, ok2 := y[b.S]
			if !ok1 && !ok2 {
				x[a.S], y[b.S] = b.S, a.S
				return true
			}
			return ok1 && ok2 && u == b.S && v == a.S
		}
		if a.S != b.S {
			return false
		}
		for i := range a.Args {
			if !rec(a.Args[i], b.Args[i]) {
				return false
			}
		}
		return true
	}
	return rec(a, b)
}

func pickSig18(g *G) *Sig {
	switch g.Intn(3) {
	case 0:
		return mkSig(map[string]int{"a": 0, "f": 1, "h": 2})
	case 1:
		return mkSig(map[string]int{"a": 0, "b": 0, "h": 2})
	}
	return defaultSig
}
