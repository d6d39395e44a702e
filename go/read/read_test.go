package vft

import (
	"fmt"
	"os"
	"sync"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Engine"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Parser"
	"github.com/GoelandProver/Goeland/Typing"
)

var readOnce sync.Once

// readFile parses a problem and elaborates its statements.
func readFile(text string) []Core.Statement {
	readOnce.Do(func() {
		Glob.InitLogs()
		Engine.InitDebugger()
		Typing.InitDebugger()
		Typing.Init()
	})
	if err := os.WriteFile("in.p", []byte(text), 0644); err != nil {
		panic(err)
	}
	st, _, _ := Parser.ParseTPTPFile("in.p")
	forms, _ := Engine.ToInternalSyntax(st)
	return forms
}

// read parses the text of a formula as an axiom.
func read(text string) (AST.Form, bool) {
	forms := readFile("fof(ax, axiom, " + text + ").\n")
	if len(forms) != 1 {
		return nil, false
	}
	switch f := forms[0].GetForm().(type) {
	case Lib.Some[AST.Form]:
		return f.Val, forms[0].GetRole() == Core.Axiom
	}
	return nil, false
}

// flat makes nested conjunctions (disjunctions) one: the text does not tell them apart.
func (f *F) flat() *F {
	r := &F{Op: f.Op, Pred: f.Pred, Vars: f.Vars}
	for _, s := range f.Sub {
		s = s.flat()
		if (f.Op == "&" || f.Op == "|") && s.Op == f.Op {
			r.Sub = append(r.Sub, s.Sub...)
		} else {
			r.Sub = append(r.Sub, s)
		}
	}
	return r
}

// back reads a formula of the prover as a reference formula with its own names.
func back(f AST.Form) *F {
	subs := func() []*F {
		r := []*F{}
		for _, s := range f.GetChildFormulas().GetSlice() {
			r = append(r, back(s))
		}
		return r
	}
	binders := func(l Lib.List[AST.TypedVar]) []RB {
		r := []RB{}
		for _, v := range l.GetSlice() {
			r = append(r, RB{v.GetName(), nil})
		}
		return r
	}
	switch x := f.(type) {
	case AST.Pred:
		return &F{Op: "p", Pred: backList(x.GetID().GetName(), x.GetArgs())}
	case AST.Top:
		return &F{Op: "T"}
	case AST.Bot:
		return &F{Op: "F"}
	case AST.Not:
		return &F{Op: "~", Sub: subs()}
	case AST.And:
		return &F{Op: "&", Sub: subs()}
	case AST.Or:
		return &F{Op: "|", Sub: subs()}
	case AST.Imp:
		return &F{Op: "=>", Sub: subs()}
	case AST.Equ:
		return &F{Op: "<=>", Sub: subs()}
	case AST.All:
		return &F{Op: "!", Vars: binders(x.GetVarList()), Sub: subs()}
	case AST.Ex:
		return &F{Op: "?", Vars: binders(x.GetVarList()), Sub: subs()}
	}
	return &F{Op: "p", Pred: &T{S: fmt.Sprintf("unexpected %T", f)}}
}

func backList(s string, l Lib.List[AST.Term]) *T {
	r := &T{S: s}
	for _, a := range l.GetSlice() {
		switch x := a.(type) {
		case AST.Fun:
			r.Args = append(r.Args, backList(x.GetName(), x.GetArgs()))
		case AST.Var:
			r.Args = append(r.Args, &T{S: "_" + x.GetName()})
		default:
			r.Args = append(r.Args, &T{S: fmt.Sprintf("unexpected %T", a)})
		}
	}
	return r
}

// mapNames gives other names to the symbols of f.
func (f *F) mapNames(m map[string]string) *F {
	r := &F{Op: f.Op, Vars: f.Vars}
	var trm func(*T) *T
	trm = func(t *T) *T {
		u := &T{S: t.S}
		if n, ok := m[t.S]; ok {
			u.S = n
		}
		for _, a := range t.Args {
			u.Args = append(u.Args, trm(a))
		}
		return u
	}
	if f.Pred != nil {
		r.Pred = trm(f.Pred)
	}
	for _, s := range f.Sub {
		r.Sub = append(r.Sub, s.mapNames(m))
	}
	return r
}

var plainNames = []string{"cat", "p_1", "aB", "x", "not", "in12", "skolem", "a_b_c_", "e5", "axiom", "fof", "thf", "include", "t"}
var oddNames = []string{"Cat", "hello world", "it\\'s", "a-b", "Xa1", "back\\\\slash", "p(q)", "_u", "& b", "a.b", "a@0", "P", "%c", "/*"}
