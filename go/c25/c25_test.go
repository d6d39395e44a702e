package vft

import (
	"github.com/GoelandProver/Goeland/AST"
)

func printing(g *G, c *Case, quoting bool) {
	initProver()
	saved := AST.GetPrinter()
	defer AST.SetPrinter(saved)
	if quoting {
		AST.ComposePrinter(AST.QuoteID)
	}
	x := &formGen{g: g, names: []string{"X", "Y", "Zz_1", "X1"}}
	w := newFormWorld(g, x)
	f := x.form(1 + g.Size/4)
	names := map[string]string{}
	used := map[string]bool{}
	pool := append([]string{}, plainNames...)
	if quoting {
		pool = append(pool, oddNames...)
	}
	for _, s := range []string{"p", "q", "s", "f", "h"} {
		if n := pool[g.Intn(len(pool))]; !used[n] && g.Chance(1, 2) {
			names[s] = n
			used[n] = true
		}
	}
	for _, s := range []string{"a", "b"} {
		n := Pick(g, "1", "-3", "2/3", "0.5", "\"a b\"", "\"\"", "a", "b", "\"it's\"")
		if !used[n] && g.Chance(1, 4) {
			names[s] = n
			used[n] = true
		}
	}
	f = f.mapNames(names)
	af := w.form(f)
	if g.Chance(1, 2) {
		af = af.RenameVariables()
	}
	text := af.ToString()
	c.Key = text
	c.Sample = text
	c.Nontrivial = f.Size() >= 4
	got, ok := read(text)
	if !ok {
		c.Failf("%s is not read as one axiom", text)
		return
	}
	if a, b := back(got).flat().canon(map[string]string{}, 0), f.flat().canon(map[string]string{}, 0); a != b {
		c.Failf("%v is printed as %s, which reads as %s, expected %s", f, text, a, b)
	}
}

func init() {
	Register("plain-names", 24, func(g *G, c *Case) { printing(g, c, false) })
	Register("quoted-names", 24, func(g *G, c *Case) { printing(g, c, true) })
}
