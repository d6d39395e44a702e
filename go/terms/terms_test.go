package vft

// Reference terms with textbook unification, and their translation to and from the terms of the prover.

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Unif"
)

type T struct {
	S    string
	Args []*T
}

func (t *T) IsVar() bool { return t.S[0] >= 'A' && t.S[0] <= 'Z' }
func (t *T) String() string {
	if len(t.Args) == 0 {
		return t.S
	}
	p := []string{}
	for _, a := range t.Args {
		p = append(p, a.String())
	}
	return t.S + "(" + strings.Join(p, ",") + ")"
}
func (t *T) Eq(u *T) bool {
	if t.S != u.S || len(t.Args) != len(u.Args) {
		return false
	}
	for i := range t.Args {
		if !t.Args[i].Eq(u.Args[i]) {
			return false
		}
	}
	return true
}
func (t *T) Vars(m map[string]bool) {
	if t.IsVar() {
		m[t.S] = true
	}
	for _, a := range t.Args {
		a.Vars(m)
	}
}
func (t *T) Size() int {
	n := 1
	for _, a := range t.Args {
		n += a.Size()
	}
	return n
}

type Sub map[string]*T

func (s Sub) String() string {
	ks := []string{}
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	p := []string{}
	for _, k := range ks {
		p = append(p, k+"->"+s[k].String())
	}
	return "{" + strings.Join(p, ", ") + "}"
}

// Apply a triangular substitution all the way; nil when it is cyclic.
func (s Sub) Full(t *T) *T { return s.full(t, map[string]bool{}) }
func (s Sub) full(t *T, on map[string]bool) *T {
	if t.IsVar() {
		u, ok := s[t.S]
		if !ok || (u.IsVar() && u.S == t.S) {
			return t
		}
		if on[t.S] {
			return nil
		}
		on[t.S] = true
		r := s.full(u, on)
		delete(on, t.S)
		return r
	}
	r := &T{S: t.S}
	for _, a := range t.Args {
		b := s.full(a, on)
		if b == nil {
			return nil
		}
		r.Args = append(r.Args, b)
	}
	return r
}

// One pass, as an idempotent substitution is applied.
func (s Sub) Once(t *T) *T {
	if t.IsVar() {
		if u, ok := s[t.S]; ok {
			return u
		}
		return t
	}
	r := &T{S: t.S}
	for _, a := range t.Args {
		r.Args = append(r.Args, s.Once(a))
	}
	return r
}

// solve extends s (idempotent) to a most general unifier of the pairs; false when there is none.
func solve(s Sub, pairs [][2]*T) (Sub, bool) {
	r := Sub{}
	for k, v := range s {
		r[k] = v
	}
	for len(pairs) > 0 {
		a, b := r.Once(pairs[0][0]), r.Once(pairs[0][1])
		pairs = pairs[1:]
		switch {
		case a.Eq(b):
		case a.IsVar() || b.IsVar():
			if !a.IsVar() {
				a, b = b, a
			}
			m := map[string]bool{}
			b.Vars(m)
			if m[a.S] {
				return nil, false
			}
			one := Sub{a.S: b}
			for k, v := range r {
				r[k] = one.Once(v)
			}
			r[a.S] = b
		default:
			if a.S != b.S || len(a.Args) != len(b.Args) {
				return nil, false
			}
			for i := range a.Args {
				pairs = append(pairs, [2]*T{a.Args[i], b.Args[i]})
			}
		}
	}
	return r, true
}

func eqsOf(s Sub) [][2]*T {
	p := [][2]*T{}
	for k, v := range s {
		p = append(p, [2]*T{{S: k}, v})
	}
	return p
}

// same solutions: each one solves the other
func equivalent(a, b Sub) bool {
	for k, v := range b {
		if !a.Once(&T{S: k}).Eq(a.Once(v)) {
			return false
		}
	}
	for k, v := range a {
		if !b.Once(&T{S: k}).Eq(b.Once(v)) {
			return false
		}
	}
	return true
}

// Generation ---------------------------------------------------------------------------------

type Sig struct {
	Syms  map[string]int
	names []string
}

func mkSig(m map[string]int) *Sig {
	s := &Sig{Syms: m}
	for k := range m {
		s.names = append(s.names, k)
	}
	sort.Strings(s.names)
	return s
}

var defaultSig = mkSig(map[string]int{"a": 0, "b": 0, "c": 0, "f": 1, "g": 1, "h": 2, "k": 2, "t": 3})

func (g *G) Term(sig *Sig, vars []string, depth int) *T {
	if len(vars) > 0 && g.Chance(2, 5) || depth <= 0 && len(vars) > 0 && g.Chance(1, 2) {
		return &T{S: vars[g.Intn(len(vars))]}
	}
	for {
		n := sig.names[g.Intn(len(sig.names))]
		if depth <= 0 && sig.Syms[n] > 0 {
			continue
		}
		r := &T{S: n}
		for i := 0; i < sig.Syms[n]; i++ {
			r.Args = append(r.Args, g.Term(sig, vars, depth-1-g.Intn(2)))
		}
		return r
	}
}

// A variation of t: a random subterm replaced, some variables renamed.
func (g *G) Mutate(sig *Sig, vars []string, t *T, depth int) *T {
	if g.Chance(1, 4) || t.IsVar() && g.Chance(1, 2) {
		return g.Term(sig, vars, depth)
	}
	if len(t.Args) == 0 {
		return t
	}
	r := &T{S: t.S, Args: append([]*T{}, t.Args...)}
	i := g.Intn(len(t.Args))
	r.Args[i] = g.Mutate(sig, vars, t.Args[i], depth-1)
	if g.Chance(1, 3) {
		j := g.Intn(len(t.Args))
		r.Args[j] = g.Mutate(sig, vars, t.Args[j], depth-1)
	}
	return r
}

func varNames(n int) []string {
	r := []string{}
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprintf("X%d", i))
	}
	return r
}

// Translation --------------------------------------------------------------------------------

var initOnce sync.Once

func initProver() {
	initOnce.Do(func() {
		AST.InitDebugger()
		Unif.InitDebugger()
		Core.InitDebugger()
		AST.Init()
	})
}

// World binds the variables of the reference terms to metavariables.
type World struct {
	metas map[string]AST.Meta
	names map[int]string
}

func newWorld(g *G, vars []string) *World {
	initProver()
	w := &World{map[string]AST.Meta{}, map[int]string{}}
	for _, i := range g.Perm(len(vars)) {
		m := AST.MakerMeta(vars[i], g.Intn(4), AST.TIndividual())
		w.metas[vars[i]] = m
		w.names[m.GetIndex()] = vars[i]
	}
	return w
}

func (w *World) To(t *T) AST.Term {
	if t.IsVar() {
		return w.metas[t.S]
	}
	return AST.MakerFun(AST.MakerId(t.S), Lib.NewList[AST.Ty](), w.ToList(t.Args))
}

func (w *World) ToList(ts []*T) Lib.List[AST.Term] {
	l := Lib.NewList[AST.Term]()
	for _, t := range ts {
		l.Append(w.To(t))
	}
	return l
}

func (w *World) Atom(t *T) AST.Form {
	return AST.MakerPred(AST.MakerId(t.S), Lib.NewList[AST.Ty](), w.ToList(t.Args))
}

func (w *World) From(t AST.Term) *T {
	switch x := t.(type) {
	case AST.Meta:
		n, ok := w.names[x.GetIndex()]
		if !ok {
			return &T{S: "unknown metavariable " + x.ToString()}
		}
		return &T{S: n}
	case AST.Fun:
		r := &T{S: x.GetName()}
		for _, a := range x.GetArgs().GetSlice() {
			r.Args = append(r.Args, w.From(a))
		}
		return r
	case AST.Id:
		return &T{S: x.GetName()}
	}
	return &T{S: fmt.Sprintf("unexpected %T", t)}
}

func (w *World) FromAtom(f AST.Form) *T {
	p, ok := f.(AST.Pred)
	if !ok {
		return &T{S: fmt.Sprintf("unexpected %T", f)}
	}
	r := &T{S: p.GetID().GetName()}
	for _, a := range p.GetArgs().GetSlice() {
		r.Args = append(r.Args, w.From(a))
	}
	return r
}

// FromSubst reads a substitution; a description is given when a key is bound twice to different terms.
func (w *World) FromSubst(s Unif.Substitutions) (Sub, string) {
	r := Sub{}
	for _, x := range s {
		k, v := x.Get()
		n := w.From(k).S
		t := w.From(v)
		if o, ok := r[n]; ok && !o.Eq(t) {
			return r, fmt.Sprintf("%s is bound to both %v and %v", n, o, t)
		}
		r[n] = t
	}
	return r, ""
}

func (w *World) ToSubst(s Sub, order []string) Unif.Substitutions {
	r := Unif.MakeEmptySubstitution()
	for _, k := range order {
		if v, ok := s[k]; ok {
			r = append(r, Unif.MakeSubstitution(w.metas[k], w.To(v)))
		}
	}
	return r
}
