package vft

// Typed (polymorphic) reference terms and their translation.

import (
	"sync"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Typing"
)

// Polymorphic atoms: the first arguments of these symbols are types.
var tyArity = map[string]int{"u": 1, "e": 1, "pp": 1, "qq": 2}

type tyWorld struct {
	*World
	tys map[string]AST.Ty
	tyN map[string]string
}

var tyOnce sync.Once

func newTyWorld(g *G, vars, tyvars []string) *tyWorld {
	w := &tyWorld{newWorld(g, vars), map[string]AST.Ty{}, map[string]string{}}
	tyOnce.Do(func() {
		Typing.InitDebugger()
		Typing.Init()
		a := AST.MkTyBV("A", 0)
		Typing.AddToGlobalEnv("u", AST.MkTyPi(Lib.MkListV("A"), AST.MkTyFunc(a, a)))
		Typing.AddToGlobalEnv("e", AST.MkTyPi(Lib.MkListV("A"), a))
	})
	for _, v := range tyvars {
		m := AST.MkTyMeta(v, g.Intn(4))
		w.tys[v] = m
		w.names[m.(AST.TyMeta).ToTermMeta().GetIndex()] = v
	}
	return w
}

func (w *tyWorld) Ty(t *T) AST.Ty {
	if t.IsVar() {
		return w.tys[t.S]
	}
	l := Lib.NewList[AST.Ty]()
	for _, a := range t.Args {
		l.Append(w.Ty(a))
	}
	return AST.MkTyConstr(t.S, l)
}

func (w *tyWorld) args(t *T) (Lib.List[AST.Ty], Lib.List[AST.Term]) {
	tys, trms := Lib.NewList[AST.Ty](), Lib.NewList[AST.Term]()
	for i, a := range t.Args {
		if i < tyArity[t.S] {
			tys.Append(w.Ty(a))
		} else {
			trms.Append(w.Term(a))
		}
	}
	return tys, trms
}

func (w *tyWorld) Term(t *T) AST.Term {
	if t.IsVar() {
		return w.metas[t.S]
	}
	tys, trms := w.args(t)
	return AST.MakerFun(AST.MakerId(t.S), tys, trms)
}

func (w *tyWorld) Pred(t *T) AST.Form {
	tys, trms := w.args(t)
	return AST.MakerPred(AST.MakerId(t.S), tys, trms)
}

func (w *tyWorld) fromArgs(s string, tys Lib.List[AST.Ty], trms Lib.List[AST.Term]) *T {
	r := &T{S: s}
	for _, x := range tys.GetSlice() {
		r.Args = append(r.Args, w.World.From(AST.TyToTerm(x)))
	}
	for _, x := range trms.GetSlice() {
		r.Args = append(r.Args, w.FromTerm(x))
	}
	return r
}

func (w *tyWorld) FromTerm(t AST.Term) *T {
	if f, ok := t.(AST.Fun); ok {
		return w.fromArgs(f.GetName(), f.GetTyArgs(), f.GetArgs())
	}
	return w.World.From(t)
}

func (g *G) Type(tyvars []string, depth int) *T {
	if len(tyvars) > 0 && g.Chance(1, 2) {
		return &T{S: tyvars[g.Intn(len(tyvars))]}
	}
	if depth > 0 && g.Chance(1, 3) {
		return &T{S: "li", Args: []*T{g.Type(tyvars, depth-1)}}
	}
	return &T{S: Pick(g, "nat", "int2")}
}

func (g *G) TyTerm(vars, tyvars []string, depth int) *T {
	if len(vars) > 0 && g.Chance(2, 5) {
		return &T{S: vars[g.Intn(len(vars))]}
	}
	if depth > 0 {
		switch g.Intn(4) {
		case 0:
			return &T{S: "u", Args: []*T{g.Type(tyvars, 1), g.TyTerm(vars, tyvars, depth-1)}}
		case 1:
			return &T{S: "h", Args: []*T{g.TyTerm(vars, tyvars, depth-1), g.TyTerm(vars, tyvars, depth-1)}}
		}
	}
	if g.Chance(1, 2) {
		return &T{S: "e", Args: []*T{g.Type(tyvars, 1)}}
	}
	return &T{S: "a"}
}
