package vft

import (
	"fmt"
	"sort"
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Lib"
)

func setup(g *G, c *Case, closed bool) (*formGen, *formWorld, *F, AST.Form) {
	x := g.formGen()
	if closed {
		x.metas, x.tyMetas = nil, nil
	}
	w := newFormWorld(g, x)
	f := x.form(1 + g.Size/4)
	if g.Chance(2, 3) && f.quantifiers() == 0 {
		f = x.quantified(1 + g.Size/4)
	}
	c.Nontrivial = f.quantifiers() >= 2
	c.Sample = f.String()
	c.Key = f.String()
	return x, w, f, w.form(f)
}

// judge compares a formula of the prover with the reference.
func judge(w *formWorld, c *Case, what string, got AST.Form, want *F) {
	a := w.canon(got, func(s string, v ...any) { c.Failf(what+": "+s, v...) })
	if b := want.canon(map[string]string{}, 0); a != b {
		c.Failf("%s: got %s, expected %s (printed %s, expected %v)", what, a, b, got.ToString(), want)
	}
	m := map[string]bool{}
	want.metas(m)
	if s := w.metaNames(got.GetMetas()); s != nameList(m) {
		c.Failf("%s: the metavariables are {%s}, expected {%s} in %s", what, s, nameList(m), got.ToString())
	}
}

func init() {
	// Renaming: the same formula up to names, all binders different, also over several calls.
	Register("rename", 24, func(g *G, c *Case) {
		x, w, f, af := setup(g, c, g.Chance(2, 3))
		seen := map[string]bool{}
		seenIndex := map[int]bool{}
		for _, n := range append(append([]string{}, x.names...), x.tyNames...) {
			// the names of the text keep their meaning
			seenIndex[AST.MakerVar(n).GetIndex()] = true
		}
		forms := []*F{f}
		afs := []AST.Form{af}
		for i := 0; i < g.Intn(3); i++ {
			h := x.form(2)
			forms = append(forms, h)
			afs = append(afs, w.form(h))
		}
		for i := range forms {
			before := w.canon(afs[i], func(string, ...any) {})
			r := afs[i].RenameVariables()
			judge(w, c, "renaming", r, forms[i])
			if w.canon(afs[i], func(string, ...any) {}) != before {
				c.Failf("renaming changed its argument %v", forms[i])
			}
			for _, v := range bindersOf(r) {
				if seen[v.GetName()] || seenIndex[v.GetIndex()] {
					c.Failf("the bound variable %s is not new in the renaming of %v: %s", v.GetName(), forms[i], r.ToString())
				}
				seen[v.GetName()] = true
				seenIndex[v.GetIndex()] = true
			}
			c.Key += forms[i].String()
		}
	})

	// Opening quantifiers one variable at a time, then replacing metavariables, types and terms.
	Register("substitute", 24, func(g *G, c *Case) {
		x, w, f, af := setup(g, c, false)
		cur, ref := af.RenameVariables(), f
		ops := []string{}
		for step := 0; step < 6 && c.Fail == ""; step++ {
			before, old := w.canon(cur, func(string, ...any) {}), cur
			oldMetas := w.metaNames(cur.GetMetas())
			if g.Chance(1, 3) {
				cur = cur.Copy()
			}
			var what string
			body, vars := openQuantifier(cur)
			switch k := g.Intn(5); {
			case k < 2 && body != nil:
				b := ref.Vars[0]
				v := vars.At(0)
				rest := &F{Op: ref.Op, Vars: ref.Vars[1:], Sub: ref.Sub}
				if len(rest.Vars) == 0 {
					rest = ref.Sub[0]
				}
				n := fmt.Sprintf("N%d", step)
				// without its first binder the variable is free, and the binders that follow keep theirs
				if b.isType() {
					m := AST.MkTyMeta(n, 0)
					w.tys[n] = m
					w.names[m.(AST.TyMeta).ToTermMeta().GetIndex()] = n
					x.tyMetas = append(x.tyMetas, n)
					what = "opening the type " + b.Name
					cur = rebuild(cur, body.SubstTy(v.ToTyBoundVar(), m), func(t AST.TypedVar) AST.TypedVar {
						return t.SubstTy(v.ToTyBoundVar(), m)
					})
				} else {
					m := AST.MakerMeta(n, step, v.GetTy())
					w.metas[n] = m
					w.names[m.GetIndex()] = n
					what = "opening " + b.Name
					if g.Chance(1, 2) {
						cur = rebuild(cur, body.SubstituteVarByMeta(v.ToBoundVar(), m), nil)
					} else {
						bd, _ := body.ReplaceTermByTerm(v.ToBoundVar(), m)
						cur = rebuild(cur, bd, nil)
					}
					x.metas = append(x.metas, n)
				}
				ref = rest.subst(map[string]*T{"_" + b.Name: {S: n}})
			case k == 2 && len(x.metas) > 0:
				n := x.metas[g.Intn(len(x.metas))]
				x.scope, x.tScope = nil, nil
				t := x.term(2)
				what = fmt.Sprintf("replacing the metavariable %s by %v", n, t)
				if g.Chance(1, 3) {
					r, _ := cur.ReplaceTermByTerm(w.metas[n], w.term(t))
					cur = r
				} else {
					cur = cur.ReplaceMetaByTerm(w.metas[n], w.term(t))
				}
				ref = ref.subst(map[string]*T{n: t})
			case k == 3 && len(x.tyMetas) > 0:
				n := x.tyMetas[g.Intn(len(x.tyMetas))]
				x.tScope = nil
				t := x.ty()
				what = fmt.Sprintf("replacing the type metavariable %s by %v", n, t)
				cur = cur.SubstTy(w.tys[n].(AST.TyMeta), w.ty(t))
				ref = ref.subst(map[string]*T{n: t})
			default:
				n := Pick(g, "a", "b")
				x.scope, x.tScope = nil, nil
				t := x.term(2)
				what = fmt.Sprintf("replacing the constant %s by %v", n, t)
				r, done := cur.ReplaceTermByTerm(w.term(&T{S: n}), w.term(t))
				cur = r
				if has := ref.has(n); done != has {
					c.Failf("%s in %v reports %v", what, ref, done)
				}
				ref = ref.subst(map[string]*T{n: t})
			}
			ops = append(ops, what)
			judge(w, c, strings.Join(ops, ", "), cur, ref)
			if w.canon(old, func(string, ...any) {}) != before || w.metaNames(old.GetMetas()) != oldMetas {
				c.Failf("%s changed the formula it was applied to, %s", what, old.ToString())
			}
		}
		c.Key += strings.Join(ops, ",")
		c.Sample += "  with " + strings.Join(ops, ", ")
	})

	// Instantiation as the tableau does it, through whole blocks of quantifiers.
	Register("instantiate", 24, func(g *G, c *Case) {
		_, w, f, af := setup(g, c, false)
		cur, ref := af.RenameVariables(), f
		if cur2, ok := cur.(AST.Ex); ok {
			cur, ref = AST.MakerNot(cur2), &F{Op: "~", Sub: []*F{ref}}
		}
		n := 0
		terms := Lib.NewList[AST.Term]()
		for {
			q := ref
			neg := q.Op == "~"
			if neg {
				q = q.Sub[0]
			}
			if !(neg && q.Op == "?" || !neg && q.Op == "!") {
				break
			}
			before := w.canon(cur, func(string, ...any) {})
			fat, metas := Core.Instantiate(Core.MakeFormAndTerm(cur, terms), n)
			if w.canon(cur, func(string, ...any) {}) != before {
				c.Failf("instantiation changed its argument %v", ref)
			}
			b := q.Vars[0]
			name := fmt.Sprintf("N%d", n)
			n++
			if b.isType() {
				if metas.Cardinal() != 0 {
					c.Failf("instantiating a type gives the metavariables %s", w.metaNames(metas))
				}
				for _, m := range tyMetasOf(fat.GetForm()) {
					if _, known := w.names[m.ToTermMeta().GetIndex()]; !known {
						w.names[m.ToTermMeta().GetIndex()] = name
					}
				}
			} else {
				if metas.Cardinal() != 1 {
					c.Failf("instantiating %s gives %d metavariables", b.Name, metas.Cardinal())
					return
				}
				m := metas.Elements().At(0)
				if _, known := w.names[m.GetIndex()]; known {
					c.Failf("the metavariable %s is not new", m.ToString())
				}
				w.names[m.GetIndex()] = name
				w.metas[name] = m
				if got := fat.GetTerms(); got.Len() != terms.Len()+1 || !got.At(terms.Len()).Equals(m) {
					c.Failf("instantiating %s gives the terms %s", b.Name, Lib.ListToString(got, Lib.WithEmpty("none")))
				}
			}
			rest := &F{Op: q.Op, Vars: q.Vars[1:], Sub: q.Sub}
			if len(rest.Vars) == 0 {
				rest = q.Sub[0]
			}
			rest = rest.subst(map[string]*T{"_" + b.Name: {S: name}})
			if neg {
				rest = &F{Op: "~", Sub: []*F{rest}}
			}
			cur, ref, terms = fat.GetForm(), rest, fat.GetTerms()
			// the types of the binders that are left over are not part of what the search looks at
			if a, b := w.canon(eraseBinders(cur), func(s string, v ...any) { c.Failf(s, v...) }), eraseF(ref).canon(map[string]string{}, 0); a != b {
				c.Failf("instantiating %s: got %s, expected %s", b, a, b)
			}
			ms := map[string]bool{}
			ref.metas(ms)
			if s := w.metaNames(cur.GetMetas()); s != nameList(ms) {
				c.Failf("instantiating: the metavariables are {%s}, expected {%s} in %s", s, nameList(ms), cur.ToString())
			}
		}
		c.Nontrivial = n >= 2
	})

	// Equality of formulas and of terms is identity, copies are equal and apart.
	Register("equality", 20, func(g *G, c *Case) {
		x, w, f, af := setup(g, c, false)
		h := f
		switch g.Intn(3) {
		case 0:
			h = mutateF(g, x, f)
		case 1:
			h = x.form(1 + g.Size/4)
		}
		ah := w.form(h)
		want := f.String() == h.String()
		if af.Equals(ah) != want || ah.Equals(af) != want {
			c.Failf("%v and %v: equality is %v and %v, expected %v", f, h, af.Equals(ah), ah.Equals(af), want)
		}
		if cp := af.Copy(); !cp.Equals(af) || cp.ToString() != af.ToString() || cp.GetIndex() != af.GetIndex() {
			c.Failf("the copy of %v is %s", f, cp.ToString())
		}
		c.Key += h.String()
		c.Class += fmt.Sprint("-", want)

		// sub-terms and sub-formulas
		sub := map[string]bool{}
		f.subTerms(sub)
		got := map[string]bool{}
		for _, t := range af.GetSubTerms().GetSlice() {
			s := plain(w, t)
			if got[s] {
				c.Failf("the sub-term %s of %v is listed twice", s, f)
			}
			got[s] = true
		}
		if nameList(sub) != nameList(got) {
			c.Failf("the sub-terms of %v are {%s}, expected {%s}", f, nameList(got), nameList(sub))
		}
		a, b := []string{}, []string{}
		for _, s := range af.GetSubFormulasRecur().GetSlice() {
			a = append(a, w.canon(s, func(string, ...any) {}))
		}
		f.subForms(func(s *F) { b = append(b, s.canon(map[string]string{}, 0)) })
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			c.Failf("the sub-formulas of %v are %v, expected %v", f, a, b)
		}
		if got, want := AST.RemoveNeg(af), stripNeg(f); w.canon(got, func(string, ...any) {}) != want.canon(map[string]string{}, 0) {
			c.Failf("%v without negations is %s", f, got.ToString())
		}
		sn, odd := f, false
		for sn.Op == "~" {
			sn, odd = sn.Sub[0], !odd
		}
		if odd {
			sn = &F{Op: "~", Sub: []*F{sn}}
		}
		if got := AST.SimplifyNegations(af); w.canon(got, func(string, ...any) {}) != sn.canon(map[string]string{}, 0) {
			c.Failf("%v with its negations simplified is %s", f, got.ToString())
		}
	})

	// Operations on terms.
	Register("terms", 16, func(g *G, c *Case) {
		x := g.formGen()
		if len(x.metas) == 0 {
			x.metas = varNames(2)
		}
		w := newFormWorld(g, x)
		t := x.term(1 + g.Size/4)
		all := []*T{}
		t.each(func(u *T) { all = append(all, u) })
		old := all[g.Intn(len(all))]
		if g.Chance(1, 4) {
			old = x.term(1)
		}
		by := x.term(2)
		c.Nontrivial = t.Size() > 3
		c.Key = fmt.Sprint(t, old, by)
		c.Sample = fmt.Sprintf("%v with %v for %v", t, by, old)
		at, ao, ab := w.term(t), w.term(old), w.term(by)
		before := plain(w, at)
		if got, want := plain(w, AST.ReplaceAllInTerm(at, ao, ab)), replaceAll(t, old, by); got != want.String() {
			c.Failf("%v with %v for every %v is %s, expected %v", t, by, old, got, want)
		}
		if !old.Eq(by) {
			want, done := replaceFirst(t, old, by)
			if got := plain(w, at.ReplaceSubTermBy(ao, ab)); got != want.String() {
				c.Failf("%v with %v for the first %v is %s, expected %v (%v)", t, by, old, got, want, done)
			}
		}
		l, updated := AST.ReplaceOccurrence(Lib.MkListV(at, ao), ao, ab)
		if l.Len() != 2 || plain(w, l.At(0)) != replaceAll(t, old, by).String() || plain(w, l.At(1)) != by.String() {
			c.Failf("replacing %v by %v in [%v, %v]: %s", old, by, t, old, Lib.ListToString(l))
		}
		if want := !old.Eq(by); updated != want {
			c.Failf("replacing %v by %v in [%v, %v] reports %v", old, by, t, old, updated)
		}
		if plain(w, at) != before {
			c.Failf("a replacement changed its argument %v", t)
		}
		m := map[string]bool{}
		t.termMetas(m)
		if got := w.metaNames(at.GetMetas()); got != nameList(m) {
			c.Failf("the metavariables of %v are {%s}", t, got)
		}
		order, got := []string{}, []string{}
		t.each(func(u *T) {
			if u.IsVar() {
				order = append(order, u.S)
			}
		})
		for _, y := range at.GetMetaList().GetSlice() {
			got = append(got, w.World.From(y).S)
		}
		if strings.Join(order, " ") != strings.Join(got, " ") {
			c.Failf("the metavariables of %v in order are %v, expected %v", t, got, order)
		}
		u := x.term(1 + g.Size/4)
		if g.Chance(1, 3) {
			u = t
		}
		if at.Equals(w.term(u)) != t.Eq(u) || w.term(u).Equals(at) != t.Eq(u) {
			c.Failf("%v and %v: equality is %v", t, u, at.Equals(w.term(u)))
		}
		if cp := at.Copy(); !cp.Equals(at) || plain(w, cp) != t.String() {
			c.Failf("the copy of %v is %s", t, plain(w, cp))
		}
		// lists of terms as multisets
		n := g.Intn(4)
		l1 := []*T{}
		for i := 0; i < n; i++ {
			l1 = append(l1, x.term(1))
		}
		l2 := append([]*T{}, l1...)
		g.Shuffle(n, func(i, j int) { l2[i], l2[j] = l2[j], l2[i] })
		if n > 0 && g.Chance(1, 3) {
			l2[g.Intn(n)] = x.term(1)
		}
		want := sorted(l1) == sorted(l2)
		if got := AST.EqualsWithoutOrder(w.list(l1), w.list(l2)); got != want {
			c.Failf("%v and %v as multisets: equality is %v", l1, l2, got)
		}
	})

	// The metavariables made are new.
	Register("fresh", 16, func(g *G, c *Case) {
		initProver()
		seen := map[int]string{}
		add := func(i int, s string) {
			if o, ok := seen[i]; ok {
				c.Failf("%s and %s are the same", s, o)
			}
			seen[i] = s
		}
		names := []string{"X", "Y", "x@1"}
		for i := 0; i < 2+g.Size; i++ {
			n := names[g.Intn(len(names))]
			switch g.Intn(4) {
			case 0:
				add(AST.MakerMeta(n, g.Intn(3), AST.TIndividual()).GetIndex(), fmt.Sprint("metavariable ", i))
			case 1:
				add(AST.MkTyMeta(n, g.Intn(3)).(AST.TyMeta).ToTermMeta().GetIndex(), fmt.Sprint("type metavariable ", i))
			case 2:
				add(AST.MakerNewId(n).GetIndex(), fmt.Sprint("symbol ", i))
			case 3:
				v := AST.MakerFreshVar(n)
				add(v.GetIndex(), fmt.Sprint("variable ", i))
				if w := AST.MakerVar(v.GetName()); w.GetIndex() != v.GetIndex() {
					c.Failf("the variable %s has the indexes %d and %d", v.GetName(), v.GetIndex(), w.GetIndex())
				}
			}
			if g.Chance(1, 6) {
				AST.ResetMeta()
			}
			c.Key += n
		}
		c.Nontrivial = true
		c.Sample = fmt.Sprintf("%d objects", len(seen))
	})
}

func sorted(l []*T) string {
	r := []string{}
	for _, t := range l {
		r = append(r, t.String())
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

func (w *formWorld) list(l []*T) Lib.List[AST.Term] {
	r := Lib.NewList[AST.Term]()
	for _, t := range l {
		r.Append(w.term(t))
	}
	return r
}

// plain reads a term back with its free variables.
func plain(w *formWorld, t AST.Term) string {
	return aCanon{w, func(string, ...any) {}}.term(t, aEnv{})
}

func (t *T) each(k func(*T)) {
	k(t)
	for i, a := range t.Args {
		if i >= tyArity[t.S] {
			a.each(k)
		}
	}
}

func replaceAll(t, old, by *T) *T {
	if t.Eq(old) {
		return by
	}
	r := &T{S: t.S}
	for i, a := range t.Args {
		if i >= tyArity[t.S] {
			a = replaceAll(a, old, by)
		}
		r.Args = append(r.Args, a)
	}
	return r
}

func replaceFirst(t, old, by *T) (*T, bool) {
	if t.Eq(old) {
		return by, true
	}
	r := &T{S: t.S, Args: append([]*T{}, t.Args...)}
	for i, a := range t.Args {
		if i >= tyArity[t.S] {
			if b, ok := replaceFirst(a, old, by); ok {
				r.Args[i] = b
				return r, true
			}
		}
	}
	return r, false
}

func (f *F) subTerms(m map[string]bool) {
	if f.Pred != nil {
		for i, a := range f.Pred.Args {
			if i >= tyArity[f.Pred.S] {
				a.each(func(t *T) { m[t.String()] = true })
			}
		}
	}
	for _, s := range f.Sub {
		s.subTerms(m)
	}
}

func (f *F) subForms(k func(*F)) {
	k(f)
	for _, s := range f.Sub {
		s.subForms(k)
	}
}

// has says whether the constant n is in a term of f.
func (f *F) has(n string) bool {
	m := map[string]bool{}
	f.subTerms(m)
	return m[n]
}

func stripNeg(f *F) *F {
	for f.Op == "~" {
		f = f.Sub[0]
	}
	return f
}

// mutateF changes one place of f.
func mutateF(g *G, x *formGen, f *F) *F {
	r := &F{Op: f.Op, Pred: f.Pred, Sub: append([]*F{}, f.Sub...), Vars: append([]RB{}, f.Vars...)}
	switch {
	case len(r.Vars) > 0 && g.Chance(1, 3):
		i := g.Intn(len(r.Vars))
		switch {
		case g.Chance(1, 4):
			r.Op = map[string]string{"!": "?", "?": "!"}[r.Op]
		case r.Vars[i].isType():
			r.Vars[i].Name += "x"
		case g.Chance(1, 2):
			r.Vars[i].Name += "x"
		default:
			r.Vars[i].Ty = &T{S: Pick(g, "nat", "int2")}
		}
	case f.Op == "p":
		k := g.Intn(len(f.Pred.Args) + 1)
		if k == len(f.Pred.Args) {
			r.Pred = x.atom(1)
		} else {
			r.Pred = &T{S: f.Pred.S, Args: append([]*T{}, f.Pred.Args...)}
			if k < tyArity[f.Pred.S] {
				r.Pred.Args[k] = x.ty()
			} else {
				r.Pred.Args[k] = x.term(1)
			}
		}
	case f.Op == "T" || f.Op == "F":
		r.Op = Pick(g, "T", "F")
	case len(r.Sub) > 1 && g.Chance(1, 4):
		r.Sub[0], r.Sub[1] = r.Sub[1], r.Sub[0]
	default:
		i := g.Intn(len(r.Sub))
		r.Sub[i] = mutateF(g, x, r.Sub[i])
	}
	return r
}

func openQuantifier(f AST.Form) (AST.Form, Lib.List[AST.TypedVar]) {
	switch q := f.(type) {
	case AST.All:
		return q.GetForm(), q.GetVarList()
	case AST.Ex:
		return q.GetForm(), q.GetVarList()
	}
	return nil, Lib.NewList[AST.TypedVar]()
}

// rebuild drops the first binder of the quantified formula f and gives it a new body.
func rebuild(f, body AST.Form, onTypes func(AST.TypedVar) AST.TypedVar) AST.Form {
	_, vars := openQuantifier(f)
	if vars.Len() == 1 {
		return body
	}
	l := vars.Slice(1, vars.Len())
	if onTypes != nil {
		l = Lib.ListMap(l, onTypes)
	}
	if _, all := f.(AST.All); all {
		return AST.MakerAll(l, body)
	}
	return AST.MakerEx(l, body)
}

func tyMetasOf(f AST.Form) []AST.TyMeta {
	r := []AST.TyMeta{}
	var ty func(AST.Ty)
	ty = func(t AST.Ty) {
		switch x := t.(type) {
		case AST.TyMeta:
			r = append(r, x)
		case AST.TyConstr:
			for _, a := range x.Args().GetSlice() {
				ty(a)
			}
		}
	}
	var trm func(AST.Term)
	trm = func(t AST.Term) {
		if x, ok := t.(AST.Fun); ok {
			for _, a := range x.GetTyArgs().GetSlice() {
				ty(a)
			}
			for _, a := range x.GetArgs().GetSlice() {
				trm(a)
			}
		}
	}
	var walk func(AST.Form)
	walk = func(f AST.Form) {
		if p, ok := f.(AST.Pred); ok {
			for _, a := range p.GetTyArgs().GetSlice() {
				ty(a)
			}
			for _, a := range p.GetArgs().GetSlice() {
				trm(a)
			}
		}
		for _, v := range bindersOf(f) {
			ty(v.GetTy())
		}
		for _, s := range f.GetChildFormulas().GetSlice() {
			walk(s)
		}
	}
	walk(f)
	return r
}

// eraseF replaces the types of the binders of individuals by the default type.
func eraseF(f *F) *F {
	r := &F{Op: f.Op, Pred: f.Pred}
	for _, b := range f.Vars {
		if !b.isType() {
			b.Ty = nil
		}
		r.Vars = append(r.Vars, b)
	}
	for _, s := range f.Sub {
		r.Sub = append(r.Sub, eraseF(s))
	}
	return r
}

func eraseBinders(f AST.Form) AST.Form {
	vars := func(l Lib.List[AST.TypedVar]) Lib.List[AST.TypedVar] {
		return Lib.ListMap(l, func(v AST.TypedVar) AST.TypedVar {
			if AST.IsTType(v.GetTy()) {
				return v
			}
			return AST.MkTypedVar(v.GetName(), v.GetIndex(), AST.TIndividual())
		})
	}
	subs := Lib.NewList[AST.Form]()
	for _, s := range f.GetChildFormulas().GetSlice() {
		subs.Append(eraseBinders(s))
	}
	switch x := f.(type) {
	case AST.Not:
		return AST.MakerNot(subs.At(0))
	case AST.And:
		return AST.MakerAnd(subs)
	case AST.Or:
		return AST.MakerOr(subs)
	case AST.Imp:
		return AST.MakerImp(subs.At(0), subs.At(1))
	case AST.Equ:
		return AST.MakerEqu(subs.At(0), subs.At(1))
	case AST.All:
		return AST.MakerAll(vars(x.GetVarList()), subs.At(0))
	case AST.Ex:
		return AST.MakerEx(vars(x.GetVarList()), subs.At(0))
	}
	return f
}
