package vft

// The formula the parser gives for a text, against the formula the text was written from. The writer picks, for each
// formula, one of the ways the TPTP standard has to write it.

import (
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
)

type writer struct {
	g     *G
	tff   bool
	plain int // how seldom something fancy is written: 1 in plain
	ways  map[string]bool
	toks  []string
}

func (w *writer) emit(s ...string) { w.toks = append(w.toks, s...) }
func (w *writer) fancy(way string) bool {
	if w.g.Chance(1, w.plain) {
		w.ways[way] = true
		return true
	}
	return false
}

func plainWord(s string) bool {
	for i, c := range s {
		if !(c >= 'a' && c <= 'z' || i > 0 && (c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_')) {
			return false
		}
	}
	return s != ""
}

func (w *writer) name(s string) {
	if plainWord(s) {
		if w.fancy("quoted word") {
			s = "'" + s + "'"
		}
	} else if !strings.ContainsRune("\"+-0123456789", rune(s[0])) {
		s = "'" + s + "'"
	}
	w.emit(s)
}

func (w *writer) term(t *T) {
	if t.S[0] == '_' && len(t.S) > 1 && t.S[1] >= 'A' && t.S[1] <= 'Z' {
		w.emit(t.S[1:])
		return
	}
	w.name(t.S)
	w.args(t)
}

func (w *writer) args(t *T) {
	for i, a := range t.Args {
		w.emit([]string{"(", ","}[min(i, 1)])
		w.term(a)
	}
	if len(t.Args) > 0 {
		w.emit(")")
	}
}

// levels: 3 a whole formula, 2 a unit (no binary connective), 1 unitary (no negation nor infix equality in TFF), 0 bracketed or atomic
func (w *writer) wrap(need bool, f func()) {
	if need || w.fancy("brackets") {
		w.emit("(")
		if w.fancy("brackets") {
			w.emit("(")
			f()
			w.emit(")")
		} else {
			f()
		}
		w.emit(")")
		return
	}
	f()
}

func (w *writer) form(f *F, unit bool) {
	g := w.g
	bin := func(a *F, op string, b *F) {
		w.wrap(unit, func() {
			w.form(a, true)
			w.emit(op)
			w.form(b, true)
		})
	}
	switch f.Op {
	case "T", "F":
		w.wrap(false, func() { w.emit(map[string]string{"T": "$true", "F": "$false"}[f.Op]) })
	case "p":
		w.wrap(false, func() { w.atom(f.Pred, "=") })
	case "~":
		h := f.Sub[0]
		switch {
		case h.Op == "p" && h.Pred.S == "=" && g.Chance(1, 2):
			w.ways["!="] = true
			w.wrap(false, func() { w.atom(h.Pred, "!=") })
			return
		case h.Op == "<=>" && g.Chance(2, 3):
			w.ways["<~>"] = true
			bin(h.Sub[0], "<~>", h.Sub[1])
			return
		case (h.Op == "|" || h.Op == "&") && len(h.Sub) == 2 && g.Chance(1, 2):
			w.ways["~"+h.Op] = true
			bin(h.Sub[0], "~"+h.Op, h.Sub[1])
			return
		}
		w.wrap(false, func() {
			w.emit("~")
			if w.tff && (h.Op == "p" && h.Pred.S == "=" || h.Op == "~") {
				// a TFF negation does not apply to an infix formula
				w.emit("(")
				w.form(h, false)
				w.emit(")")
			} else {
				w.form(h, true)
			}
		})
	case "=>":
		if g.Chance(1, 3) {
			w.ways["<="] = true
			bin(f.Sub[1], "<=", f.Sub[0])
		} else {
			bin(f.Sub[0], "=>", f.Sub[1])
		}
	case "<=>":
		bin(f.Sub[0], "<=>", f.Sub[1])
	case "&", "|":
		w.wrap(unit, func() {
			// (a & b) & c can be written without brackets
			var chain func(h *F)
			chain = func(h *F) {
				for i, s := range h.Sub {
					if i > 0 {
						w.emit(f.Op)
					}
					if i == 0 && s.Op == f.Op && g.Chance(1, 2) {
						w.ways["chain"] = true
						chain(s)
					} else {
						w.form(s, true)
					}
				}
			}
			chain(f)
		})
	case "!", "?":
		w.wrap(false, func() {
			w.emit(f.Op, "[")
			for i, v := range f.Vars {
				if i > 0 {
					if w.fancy("split block") {
						w.emit("]", ":", f.Op, "[")
					} else {
						w.emit(",")
					}
				}
				w.emit(v.Name)
				if w.tff && w.fancy("typed variable") {
					w.emit(":", "$i")
				}
			}
			w.emit("]", ":")
			w.form(f.Sub[0], true)
		})
	}
}

func (w *writer) atom(p *T, eq string) {
	if p.S == "=" {
		w.term(p.Args[0])
		w.emit(eq)
		w.term(p.Args[1])
		return
	}
	w.name(p.S)
	w.args(p)
}

func (w *writer) generalTerm(d int) {
	g := w.g
	switch k := g.Intn(8); {
	case k == 0 && d > 0:
		w.emit("[")
		for i := 0; i < g.Intn(3); i++ {
			if i > 0 {
				w.emit(",")
			}
			w.generalTerm(d - 1)
		}
		w.emit("]")
	case k <= 2 && d > 0:
		w.emit(Pick(g, "file", "inference", "introduced", "'a.b'"), "(")
		w.generalTerm(d - 1)
		if g.Chance(1, 2) {
			w.emit(",")
			w.generalTerm(d - 1)
		}
		w.emit(")")
	case k == 3 && d > 0:
		w.emit(Pick(g, "a", "status"), ":")
		w.generalTerm(d - 1)
	default:
		w.emit(Pick(g, "ax1", "unknown", "'Axioms/x.ax'", "12", "X", "\"d o\"", "'it\\'s'"))
	}
}

var comments = []string{"/* c */", "/**/", "/* * ** % ' \" */", "/***/", "% line\n", "%\n", "% fof(x, axiom, p). ' \" */\n", "/*\n\n*/", "/* / */", "%%%--\n", "%/*\n"}

// text joins the tokens; two tokens are only glued when they cannot be read as another token.
func (w *writer) text() string {
	var b strings.Builder
	word := func(c byte) bool {
		return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	spaced := w.g.Intn(3)
	for i, t := range w.toks {
		if i > 0 {
			p := w.toks[i-1]
			l, f := p[len(p)-1], t[0]
			glue := word(l) && word(f) || strings.IndexByte("!?~|&<=>", l) >= 0 && strings.IndexByte("!?~|&<=>", f) >= 0 ||
				word(l) && strings.IndexByte("+-.", f) >= 0 || l == '.' && word(f)
			switch {
			case w.fancy("comment"):
				c := comments[w.g.Intn(len(comments))]
				if w.g.Chance(1, 2) {
					c = " " + c + Pick(w.g, " ", "\n", "\t")
				}
				b.WriteString(c)
				if p == "." && false {
					b.WriteByte(' ')
				}
			case glue || spaced == 1 || spaced == 2 && w.g.Chance(1, 3):
				b.WriteString(Pick(w.g, " ", " ", "\n", "\t", "  ", "\r\n"))
			}
		}
		b.WriteString(t)
	}
	b.WriteString(Pick(w.g, "", "\n", " ", "\n% end", "\n/* end */\n"))
	return b.String()
}

// norm: one conjunction (disjunction) for nested ones, one quantifier for a block, no double negation.
func (f *F) norm() *F {
	f = f.flat()
	r := &F{Op: f.Op, Pred: f.Pred, Vars: f.Vars}
	for _, s := range f.Sub {
		r.Sub = append(r.Sub, s.norm())
	}
	if (r.Op == "!" || r.Op == "?") && r.Sub[0].Op == r.Op {
		clash := false
		for _, a := range r.Vars {
			for _, b := range r.Sub[0].Vars {
				clash = clash || a.Name == b.Name
			}
		}
		if !clash {
			return &F{Op: r.Op, Vars: append(append([]RB{}, r.Vars...), r.Sub[0].Vars...), Sub: r.Sub[0].Sub}
		}
	}
	return r
}

// unxor reads (A | B) & ~(A & B) as ~(A <=> B).
func (f *F) unxor() *F {
	r := &F{Op: f.Op, Pred: f.Pred, Vars: f.Vars}
	for _, s := range f.Sub {
		r.Sub = append(r.Sub, s.unxor())
	}
	if r.Op == "&" && len(r.Sub) == 2 && r.Sub[0].Op == "|" && r.Sub[1].Op == "~" && r.Sub[1].Sub[0].Op == "&" {
		a, b := r.Sub[0].Sub, r.Sub[1].Sub[0].Sub
		if len(a) == 2 && len(b) == 2 && a[0].String() == b[0].String() && a[1].String() == b[1].String() {
			return &F{Op: "~", Sub: []*F{{Op: "<=>", Sub: a}}}
		}
	}
	return r
}

// Finite models given by a hash.
type model struct {
	seed uint64
	n    int
}

func (m model) hash(kind, name string, args []int) int {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%d|%s|%s|%v", m.seed, m.n, kind, name, args)
	return int(h.Sum64() >> 33)
}

func (m model) term(t *T, env map[string]int) int {
	if v, ok := env[t.S]; ok && len(t.Args) == 0 {
		return v
	}
	a := []int{}
	for _, x := range t.Args {
		a = append(a, m.term(x, env))
	}
	return m.hash("f", t.S, a) % m.n
}

func (m model) holds(f *F, env map[string]int) bool {
	switch f.Op {
	case "T":
		return true
	case "F":
		return false
	case "~":
		return !m.holds(f.Sub[0], env)
	case "=>":
		return !m.holds(f.Sub[0], env) || m.holds(f.Sub[1], env)
	case "<=>":
		return m.holds(f.Sub[0], env) == m.holds(f.Sub[1], env)
	case "&", "|":
		for _, s := range f.Sub {
			if m.holds(s, env) != (f.Op == "&") {
				return f.Op == "|"
			}
		}
		return f.Op == "&"
	case "p":
		a := []int{}
		for _, x := range f.Pred.Args {
			a = append(a, m.term(x, env))
		}
		if f.Pred.S == "=" {
			return a[0] == a[1]
		}
		return m.hash("p", f.Pred.S, a)%2 == 0
	}
	var all func(vs []RB, env map[string]int) bool
	all = func(vs []RB, env map[string]int) bool {
		if len(vs) == 0 {
			return m.holds(f.Sub[0], env)
		}
		for i := 0; i < m.n; i++ {
			n := map[string]int{"_" + vs[0].Name: i}
			for k, v := range env {
				if k != "_"+vs[0].Name {
					n[k] = v
				}
			}
			if all(vs[1:], n) != (f.Op == "!") {
				return f.Op == "?"
			}
		}
		return f.Op == "!"
	}
	return all(f.Vars, env)
}

func sameMeaning(f, h *F) string {
	for n := 1; n <= 3; n++ {
		if n == 3 && (f.quantifiers() > 5 || h.quantifiers() > 8) || f.quantifiers() > 9 || h.quantifiers() > 14 {
			break
		}
		for s := 0; s < 25; s++ {
			m := model{uint64(s), n}
			if m.holds(f, map[string]int{}) != m.holds(h, map[string]int{}) {
				return fmt.Sprintf("they differ in a model with %d elements", n)
			}
		}
	}
	return ""
}

var roles = map[string]Core.FormulaRole{"axiom": Core.Axiom, "hypothesis": Core.Axiom, "lemma": Core.Axiom, "definition": Core.Axiom,
	"assumption": Core.Axiom, "theorem": Core.Axiom, "conjecture": Core.Conjecture, "negated_conjecture": Core.NegatedConjecture}
var axiomRoles = []string{"axiom", "axiom", "hypothesis", "lemma", "definition", "assumption", "theorem"}

func parsing(g *G, c *Case) {
	initProver()
	x := &formGen{g: g, names: []string{"X", "Y", "Zz_1", "X1", "XY", "V2"}}
	w := &writer{g: g, plain: Pick(g, 4, 10, 40), ways: map[string]bool{}}
	names := map[string]string{}
	used := map[string]bool{}
	pool := append(append([]string{}, plainNames...), oddNames...)
	for _, s := range []string{"p", "q", "s", "f", "h"} {
		if n := pool[g.Intn(len(pool))]; !used[n] && g.Chance(1, 2) {
			names[s] = n
			used[n] = true
		}
	}
	for _, s := range []string{"a", "b"} {
		n := Pick(g, "1", "-3", "2/3", "0.5", "1.5E3", "\"a b\"", "\"\"", "a", "b", "\"it's\"", "-1/2", "0")
		if !used[n] && g.Chance(1, 4) {
			names[s] = n
			used[n] = true
		}
	}
	type stmt struct {
		name, role string
		f          *F
	}
	list := []stmt{}
	count := 1 + g.Intn(3)*g.Intn(2)
	for i := 0; i < count; i++ {
		f := x.form(1 + g.Size/4/count).mapNames(names)
		s := stmt{Pick(g, "ax", "a1", "p", "'odd name'", "3", "axiom") + fmt.Sprint(i), axiomRoles[g.Intn(len(axiomRoles))], f}
		if s.name[0] == '\'' {
			s.name = fmt.Sprintf("'odd name%d'", i)
		}
		if i == count-1 && g.Chance(1, 2) {
			s.role = Pick(g, "conjecture", "negated_conjecture")
		}
		list = append(list, s)
		w.tff = g.Chance(1, 3)
		w.emit(map[bool]string{true: "tff", false: "fof"}[w.tff], "(", s.name, ",", s.role, ",")
		w.form(f, false)
		if w.fancy("annotations") {
			w.emit(",")
			w.generalTerm(2)
			if g.Chance(1, 2) {
				w.emit(",", "[")
				w.generalTerm(2)
				w.emit("]")
			}
		}
		w.emit(")", ".")
	}
	text := w.text()
	c.Key = text
	c.Sample = text
	c.Nontrivial = len(w.ways) >= 2 && list[0].f.Size() >= 3
	got := readFile(text)
	if len(got) != len(list) {
		c.Failf("%d statements instead of %d are read from %s", len(got), len(list), text)
		return
	}
	for i, s := range list {
		form, ok := got[i].GetForm().(Lib.Some[AST.Form])
		if !ok {
			c.Failf("statement %d of %s has no formula", i, text)
			return
		}
		if got[i].GetRole() != roles[s.role] {
			c.Failf("statement %d of %s has the role %s instead of %s", i, text, got[i].GetRole().ToString(), s.role)
		}
		if n := strings.Trim(s.name, "'"); strings.Trim(got[i].GetName(), "'") != n {
			c.Failf("statement %d of %s is called %s", i, text, got[i].GetName())
		}
		h := back(form.Val).unxor()
		if a, b := h.norm().canon(map[string]string{}, 0), s.f.norm().canon(map[string]string{}, 0); a != b {
			c.Class = "compared in models"
			if d := sameMeaning(h, s.f); d != "" {
				c.Failf("%s is read as %v instead of %v: %s", text, h, s.f, d)
			}
		}
	}
}

func init() {
	Register("formulas", 24, parsing)
	Register("formulas-flattened", 24, func(g *G, c *Case) {
		Glob.SetFlatteningAllowed() // stays for the whole process
		parsing(g, c)
	})
}
