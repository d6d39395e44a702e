package vft

// Reference formulas (with shadowing binders, over types and terms), their canonical form up to the names of bound
// variables, and their translation to the formulas of the prover.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
)

// RB is a binder: Ty nil for individuals, $tType for a type variable.
type RB struct {
	Name string
	Ty   *T
}

func (b RB) isType() bool { return b.Ty != nil && b.Ty.S == "$tType" }

// F is a formula. The variables bound in the formula appear in its terms as _X, in its types as _A.
type F struct {
	Op   string
	Pred *T
	Sub  []*F
	Vars []RB
}

func (f *F) String() string {
	switch f.Op {
	case "p":
		return f.Pred.String()
	case "T", "F":
		return f.Op
	case "~":
		return "~" + f.Sub[0].String()
	case "!", "?":
		v := []string{}
		for _, b := range f.Vars {
			if b.Ty == nil {
				v = append(v, b.Name)
			} else {
				v = append(v, b.Name+":"+b.Ty.String())
			}
		}
		return f.Op + "[" + strings.Join(v, ",") + "]:" + f.Sub[0].String()
	}
	p := []string{}
	for _, s := range f.Sub {
		p = append(p, s.String())
	}
	return "(" + strings.Join(p, " "+f.Op+" ") + ")"
}

func (f *F) Size() int {
	n := 1
	for _, s := range f.Sub {
		n += s.Size()
	}
	return n
}

func (f *F) quantifiers() int {
	n := len(f.Vars)
	for _, s := range f.Sub {
		n += s.quantifiers()
	}
	return n
}

// subst replaces the free variables and metavariables of f as m says; nothing in m mentions a bound variable.
func (f *F) subst(m map[string]*T) *F {
	if len(m) == 0 {
		return f
	}
	r := &F{Op: f.Op}
	if f.Pred != nil {
		r.Pred = substT(f.Pred, m)
	}
	if len(f.Vars) > 0 {
		n := map[string]*T{}
		for k, v := range m {
			n[k] = v
		}
		for _, b := range f.Vars {
			if b.Ty != nil {
				b.Ty = substT(b.Ty, n)
			}
			delete(n, "_"+b.Name)
			r.Vars = append(r.Vars, b)
		}
		m = n
	}
	for _, s := range f.Sub {
		r.Sub = append(r.Sub, s.subst(m))
	}
	return r
}

func substT(t *T, m map[string]*T) *T {
	if u, ok := m[t.S]; ok && len(t.Args) == 0 {
		return u
	}
	r := &T{S: t.S}
	for _, a := range t.Args {
		r.Args = append(r.Args, substT(a, m))
	}
	return r
}

func (f *F) metas(m map[string]bool) {
	if f.Pred != nil {
		f.Pred.termMetas(m)
	}
	for _, s := range f.Sub {
		s.metas(m)
	}
}

// the metavariables of the terms of t, not those of its types
func (t *T) termMetas(m map[string]bool) {
	if t.IsVar() {
		m[t.S] = true
	}
	for i, a := range t.Args {
		if i >= tyArity[t.S] {
			a.termMetas(m)
		}
	}
}

// canon: bound variables are named by their level.
func (f *F) canon(env map[string]string, depth int) string {
	switch f.Op {
	case "p":
		return canonT(f.Pred, env)
	case "T", "F":
		return f.Op
	case "!", "?":
		n := map[string]string{}
		for k, v := range env {
			n[k] = v
		}
		v := []string{}
		for _, b := range f.Vars {
			ty := "$i"
			if b.Ty != nil {
				ty = canonT(b.Ty, n)
			}
			n["_"+b.Name] = fmt.Sprintf("v%d", depth)
			v = append(v, ty)
			depth++
		}
		return f.Op + "[" + strings.Join(v, ",") + "]" + f.Sub[0].canon(n, depth)
	}
	p := []string{}
	for _, s := range f.Sub {
		p = append(p, s.canon(env, depth))
	}
	return "(" + f.Op + " " + strings.Join(p, " ") + ")"
}

func canonT(t *T, env map[string]string) string {
	s := t.S
	if v, ok := env[s]; ok {
		s = v
	}
	if len(t.Args) == 0 {
		return s
	}
	p := []string{}
	for _, a := range t.Args {
		p = append(p, canonT(a, env))
	}
	return s + "(" + strings.Join(p, ",") + ")"
}

// Generation ---------------------------------------------------------------------------------

type formGen struct {
	g             *G
	names         []string // of term variables
	tyNames       []string
	metas         []string
	tyMetas       []string
	typed         bool
	scope, tScope []string
}

func (x *formGen) ty() *T {
	g := x.g
	if len(x.tScope) > 0 && g.Chance(1, 2) {
		return &T{S: "_" + x.tScope[g.Intn(len(x.tScope))]}
	}
	if len(x.tyMetas) > 0 && g.Chance(1, 3) {
		return &T{S: x.tyMetas[g.Intn(len(x.tyMetas))]}
	}
	if g.Chance(1, 4) {
		return &T{S: "li", Args: []*T{x.ty()}}
	}
	return &T{S: Pick(g, "nat", "int2")}
}

func (x *formGen) term(d int) *T {
	g := x.g
	if len(x.scope) > 0 && g.Chance(1, 2) {
		return &T{S: "_" + x.scope[g.Intn(len(x.scope))]}
	}
	if len(x.metas) > 0 && g.Chance(1, 4) {
		return &T{S: x.metas[g.Intn(len(x.metas))]}
	}
	if d > 0 {
		switch g.Intn(4) {
		case 0:
			return &T{S: "f", Args: []*T{x.term(d - 1)}}
		case 1:
			return &T{S: "h", Args: []*T{x.term(d - 1), x.term(d - 1)}}
		case 2:
			if x.typed {
				return &T{S: "u", Args: []*T{x.ty(), x.term(d - 1)}}
			}
		}
	}
	if x.typed && g.Chance(1, 4) {
		return &T{S: "e", Args: []*T{x.ty()}}
	}
	return &T{S: Pick(g, "a", "b")}
}

func (x *formGen) atom(d int) *T {
	g := x.g
	if x.typed && g.Chance(1, 3) {
		if g.Chance(1, 3) {
			return &T{S: "pp", Args: []*T{x.ty(), x.term(d)}}
		}
		return &T{S: "qq", Args: []*T{x.ty(), x.ty(), x.term(d), x.term(d)}}
	}
	switch g.Intn(4) {
	case 0:
		return &T{S: "s"}
	case 1:
		return &T{S: "p", Args: []*T{x.term(d)}}
	case 2:
		return &T{S: "=", Args: []*T{x.term(d), x.term(d)}}
	}
	return &T{S: "q", Args: []*T{x.term(d), x.term(d)}}
}

func (x *formGen) form(d int) *F {
	g := x.g
	if d <= 0 || g.Chance(1, 10) {
		if g.Chance(1, 12) {
			return &F{Op: Pick(g, "T", "F")}
		}
		return &F{Op: "p", Pred: x.atom(2)}
	}
	switch g.Intn(9) {
	case 0:
		return &F{Op: "~", Sub: []*F{x.form(d - 1)}}
	case 1, 2:
		r := &F{Op: Pick(g, "&", "|")}
		for i := 0; i < 2+g.Intn(3)*g.Intn(2); i++ {
			r.Sub = append(r.Sub, x.form(d-1))
		}
		return r
	case 3:
		return &F{Op: Pick(g, "=>", "<=>"), Sub: []*F{x.form(d - 1), x.form(d - 1)}}
	}
	return x.quantified(d)
}

func (x *formGen) quantified(d int) *F {
	g := x.g
	r := &F{Op: Pick(g, "!", "?")}
	ns, nt := len(x.scope), len(x.tScope)
	used := map[string]bool{}
	for i := 0; i < 1+g.Intn(3); i++ {
		if x.typed && g.Chance(1, 3) {
			n := x.tyNames[g.Intn(len(x.tyNames))]
			if used[n] {
				continue
			}
			used[n] = true
			r.Vars = append(r.Vars, RB{n, &T{S: "$tType"}})
			x.tScope = append(x.tScope, n)
			continue
		}
		n := x.names[g.Intn(len(x.names))]
		if used[n] {
			continue
		}
		used[n] = true
		b := RB{n, nil}
		if x.typed && g.Chance(2, 3) {
			b.Ty = x.ty()
		}
		r.Vars = append(r.Vars, b)
		x.scope = append(x.scope, n)
	}
	r.Sub = []*F{x.form(d - 1)}
	x.scope, x.tScope = x.scope[:ns], x.tScope[:nt]
	return r
}

func (g *G) formGen() *formGen {
	x := &formGen{g: g, names: []string{"X", "Y"}, tyNames: []string{"A", "B"}, typed: g.Chance(1, 2)}
	if g.Chance(1, 3) {
		// names that look like the ones renaming makes
		initProver()
		n := AST.MakerMeta("PROBE", 0, AST.TIndividual()).GetIndex()
		x.names = append(x.names, "X1", fmt.Sprintf("X%d", n+g.Intn(12)), fmt.Sprintf("X%d", n+g.Intn(40)))
		x.tyNames = append(x.tyNames, fmt.Sprintf("A%d", n+g.Intn(12)))
	}
	if g.Chance(1, 2) {
		x.metas = varNames(1 + g.Intn(3))
		if x.typed {
			x.tyMetas = []string{"TA", "TB"}[:g.Intn(3)]
		}
	}
	return x
}

// Translation --------------------------------------------------------------------------------

type formWorld struct{ *tyWorld }

func newFormWorld(g *G, x *formGen) *formWorld {
	return &formWorld{newTyWorld(g, x.metas, x.tyMetas)}
}

func (w *formWorld) ty(t *T) AST.Ty {
	if t == nil {
		return AST.TIndividual()
	}
	if t.S == "$tType" {
		return AST.TType()
	}
	if t.S[0] == '_' {
		return AST.MakerTyBV(t.S[1:])
	}
	if t.IsVar() {
		return w.tys[t.S]
	}
	l := Lib.NewList[AST.Ty]()
	for _, a := range t.Args {
		l.Append(w.ty(a))
	}
	return AST.MkTyConstr(t.S, l)
}

func (w *formWorld) args(t *T) (Lib.List[AST.Ty], Lib.List[AST.Term]) {
	tys, trms := Lib.NewList[AST.Ty](), Lib.NewList[AST.Term]()
	for i, a := range t.Args {
		if i < tyArity[t.S] {
			tys.Append(w.ty(a))
		} else {
			trms.Append(w.term(a))
		}
	}
	return tys, trms
}

func (w *formWorld) term(t *T) AST.Term {
	if m, ok := w.metas[t.S]; ok {
		return m
	}
	if len(t.S) > 1 && t.S[0] == '_' && t.S[1] >= 'A' && t.S[1] <= 'Z' {
		return AST.MakerVar(t.S[1:])
	}
	tys, trms := w.args(t)
	return AST.MakerFun(AST.MakerId(t.S), tys, trms)
}

func (w *formWorld) binders(bs []RB) Lib.List[AST.TypedVar] {
	l := Lib.NewList[AST.TypedVar]()
	for _, b := range bs {
		l.Append(AST.MakerTypedVar(b.Name, w.ty(b.Ty)))
	}
	return l
}

func (w *formWorld) form(f *F) AST.Form {
	sub := Lib.NewList[AST.Form]()
	for _, s := range f.Sub {
		sub.Append(w.form(s))
	}
	switch f.Op {
	case "p":
		tys, trms := w.args(f.Pred)
		return AST.MakerPred(AST.MakerId(f.Pred.S), tys, trms)
	case "T":
		return AST.MakerTop()
	case "F":
		return AST.MakerBot()
	case "~":
		return AST.MakerNot(sub.At(0))
	case "&":
		return AST.MakerAnd(sub)
	case "|":
		return AST.MakerOr(sub)
	case "=>":
		return AST.MakerImp(sub.At(0), sub.At(1))
	case "<=>":
		return AST.MakerEqu(sub.At(0), sub.At(1))
	case "!":
		return AST.MakerAll(w.binders(f.Vars), sub.At(0))
	}
	return AST.MakerEx(w.binders(f.Vars), sub.At(0))
}

// aCanon is canon for a formula of the prover. Term variables are looked up by index, type variables by name, as the prover
// does; complain is told about a variable whose name and index do not belong together.
type aCanon struct {
	w        *formWorld
	complain func(string, ...any)
}

type aEnv struct {
	byIndex map[int]string
	name    map[int]string
	byName  map[string]string
}

func (e aEnv) with(v AST.TypedVar, lvl string) aEnv {
	n := aEnv{map[int]string{}, map[int]string{}, map[string]string{}}
	for k, x := range e.byIndex {
		n.byIndex[k] = x
		n.name[k] = e.name[k]
	}
	for k, x := range e.byName {
		n.byName[k] = x
	}
	n.byIndex[v.GetIndex()] = lvl
	n.name[v.GetIndex()] = v.GetName()
	n.byName[v.GetName()] = lvl
	return n
}

func (c aCanon) ty(t AST.Ty, e aEnv) string {
	switch x := t.(type) {
	case AST.TyBound:
		if l, ok := e.byName[x.GetName()]; ok {
			return l
		}
		return "_" + x.GetName()
	case AST.TyMeta:
		return c.w.World.From(x.ToTermMeta()).S
	case AST.TyConstr:
		p := []string{}
		for _, a := range x.Args().GetSlice() {
			p = append(p, c.ty(a, e))
		}
		if len(p) == 0 {
			return x.Symbol()
		}
		return x.Symbol() + "(" + strings.Join(p, ",") + ")"
	}
	return fmt.Sprintf("unexpected %T", t)
}

func (c aCanon) list(s string, tys Lib.List[AST.Ty], trms Lib.List[AST.Term], e aEnv) string {
	p := []string{}
	for _, t := range tys.GetSlice() {
		// equality is printed and written without its type
		if s != "=" {
			p = append(p, c.ty(t, e))
		}
	}
	for _, t := range trms.GetSlice() {
		p = append(p, c.term(t, e))
	}
	if len(p) == 0 {
		return s
	}
	return s + "(" + strings.Join(p, ",") + ")"
}

func (c aCanon) term(t AST.Term, e aEnv) string {
	switch x := t.(type) {
	case AST.Var:
		l, ok := e.byIndex[x.GetIndex()]
		if !ok {
			return "_" + x.GetName()
		}
		if e.name[x.GetIndex()] != x.GetName() {
			c.complain("the variable %s has the index of the binder of %s", x.GetName(), e.name[x.GetIndex()])
		}
		return l
	case AST.Meta:
		return c.w.World.From(x).S
	case AST.Fun:
		return c.list(x.GetName(), x.GetTyArgs(), x.GetArgs(), e)
	}
	return fmt.Sprintf("unexpected %T", t)
}

func (c aCanon) form(f AST.Form, e aEnv, depth int) string {
	many := func(op string, l Lib.List[AST.Form]) string {
		p := []string{}
		for _, s := range l.GetSlice() {
			p = append(p, c.form(s, e, depth))
		}
		return "(" + op + " " + strings.Join(p, " ") + ")"
	}
	quant := func(op string, vars Lib.List[AST.TypedVar], body AST.Form) string {
		v := []string{}
		for _, b := range vars.GetSlice() {
			v = append(v, c.ty(b.GetTy(), e))
			e = e.with(b, fmt.Sprintf("v%d", depth))
			depth++
		}
		return op + "[" + strings.Join(v, ",") + "]" + c.form(body, e, depth)
	}
	switch x := f.(type) {
	case AST.Pred:
		return c.list(x.GetID().GetName(), x.GetTyArgs(), x.GetArgs(), e)
	case AST.Top:
		return "T"
	case AST.Bot:
		return "F"
	case AST.Not:
		return "(~ " + c.form(x.GetForm(), e, depth) + ")"
	case AST.And:
		return many("&", x.GetChildFormulas())
	case AST.Or:
		return many("|", x.GetChildFormulas())
	case AST.Imp:
		return many("=>", Lib.MkListV(x.GetF1(), x.GetF2()))
	case AST.Equ:
		return many("<=>", Lib.MkListV(x.GetF1(), x.GetF2()))
	case AST.All:
		return quant("!", x.GetVarList(), x.GetForm())
	case AST.Ex:
		return quant("?", x.GetVarList(), x.GetForm())
	}
	return fmt.Sprintf("unexpected %T", f)
}

func (w *formWorld) canon(f AST.Form, complain func(string, ...any)) string {
	return aCanon{w, complain}.form(f, aEnv{map[int]string{}, map[int]string{}, map[string]string{}}, 0)
}

// every binder of f
func bindersOf(f AST.Form) []AST.TypedVar {
	r := []AST.TypedVar{}
	switch x := f.(type) {
	case AST.All:
		r = append(r, x.GetVarList().GetSlice()...)
	case AST.Ex:
		r = append(r, x.GetVarList().GetSlice()...)
	}
	for _, s := range f.GetChildFormulas().GetSlice() {
		r = append(r, bindersOf(s)...)
	}
	return r
}

func (w *formWorld) metaNames(s Lib.Set[AST.Meta]) string {
	r := []string{}
	for _, m := range s.Elements().GetSlice() {
		r = append(r, w.World.From(m).S)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func nameList(m map[string]bool) string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}
