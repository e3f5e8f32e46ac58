// C17: a token is resolved to exactly what it refers to.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func card(c cardinality.Cardinality) string {
	if c == nil {
		return "none"
	}
	return specific(c)
}

// the admitted amounts, up to 70, identify every cardinality of the family
func specific(c interface{ IsValid(uint) bool }) string {
	out := ""
	for i := uint(0); i <= 70; i++ {
		if c.IsValid(i) {
			out += fmt.Sprint(i, ".")
		}
	}
	return out
}

func want(c lref.Card) string {
	out := ""
	for i := 0; i <= 70; i++ {
		if c.Has(i) {
			out += fmt.Sprint(i, ".")
		}
	}
	return out
}

type checker struct {
	defs map[string]lref.Token // what each name is, replacements included
	dep  paths.Dependencies
	seen map[string]bool // verified through the dependencies
	todo []string
	n    int
}

func (k *checker) element(where string, e paths.Element) {
	t, ok := k.defs[e.Name()]
	if !ok {
		vlib.Failf("%s: an element of the unknown token %q", where, e.Name())
	}
	k.n++
	where = where + "/" + e.Name()
	k.lines(where+" lines", e.Must(), t.Must)
	not := []paths.Line{}
	if e.HasNot() {
		not = e.Not()
	}
	k.lines(where+" not", not, t.Not)
}

func (k *checker) lines(where string, got []paths.Line, lines [][]lref.Elem) {
	if len(got) != len(lines) {
		vlib.Failf("%s: %d lines instead of %d", where, len(got), len(lines))
	}
	for i, l := range got {
		ins := l.Instructions()
		if len(ins) != len(lines[i]) {
			vlib.Failf("%s %d: %d instructions instead of %d", where, i, len(ins), len(lines[i]))
		}
		for j, x := range ins {
			e := lines[i][j]
			at := fmt.Sprintf("%s %d:%d", where, i, j)
			if x.IsChannelSwitch() != e.Switch || x.IsContainer() == e.Switch {
				vlib.Failf("%s: switch=%v container=%v, want switch=%v", at, x.IsChannelSwitch(), x.IsContainer(), e.Switch)
			}
			if e.Switch {
				continue
			}
			c := x.Container()
			kinds := 0
			for _, b := range []bool{c.IsRule(), c.IsToken(), c.IsRecursive(), c.IsLines()} {
				if b {
					kinds++
				}
			}
			if kinds != 1 {
				vlib.Failf("%s: the container is of %d kinds", at, kinds)
			}
			if g := card(c.Cardinality()); g != want(e.Card) {
				vlib.Failf("%s: admits %s instead of %s", at, g, want(e.Card))
			}
			switch {
			case e.IsRule():
				if !c.IsRule() || c.Rule().Base().Name() != e.Name {
					vlib.Failf("%s: not the rule %s", at, e.Name)
				}
			case c.IsToken():
				p := c.Token().Path()
				if p.Element().Name() != k.name(e.Name) {
					vlib.Failf("%s: refers to %s instead of %s", at, p.Element().Name(), k.name(e.Name))
				}
				k.specs(at, p.HasSpecifiers(), p.Specifiers(), e.Specs)
				k.element(at, p.Element())
			case c.IsRecursive():
				r := c.Recursive()
				if r.Name() != k.name(e.Name) {
					vlib.Failf("%s: refers again to %s instead of %s", at, r.Name(), e.Name)
				}
				k.specs(at, r.HasSpecifiers(), r.Specifiers(), e.Specs)
				k.todo = append(k.todo, r.Name())
			default:
				vlib.Failf("%s: not a token", at)
			}
		}
	}
}

func (k *checker) name(n string) string {
	return k.defs[n].Name
}

func (k *checker) specs(at string, has bool, got []paths.Specifier, specs []lref.Spec) {
	if has != (len(specs) > 0) || len(got) != len(specs) {
		vlib.Failf("%s: %d specifiers instead of %d", at, len(got), len(specs))
	}
	for i, s := range got {
		if s.ContainerName() != specs[i].Name || specific(s.Cardinality()) != want(specs[i].Card) {
			vlib.Failf("%s: specifier %s %s instead of %s %s", at, s.ContainerName(), specific(s.Cardinality()), specs[i].Name, want(specs[i].Card))
		}
	}
}

// verify a path: the element and, through the dependencies, everything it refers to.
func verify(root string, defs map[string]lref.Token, p paths.Path) int {
	if p.Element().Name() != root {
		vlib.Failf("the path of %s is that of %s", root, p.Element().Name())
	}
	k := &checker{defs: defs, dep: p.Dependencies(), seen: map[string]bool{}}
	k.element("", p.Element())
	for n := range defs {
		if defs[n].Name == n {
			if _, err := k.dep.Fetch(n); err == nil {
				k.todo = append(k.todo, n)
			}
		}
	}
	for len(k.todo) > 0 {
		n := k.todo[0]
		k.todo = k.todo[1:]
		if k.seen[n] {
			continue
		}
		k.seen[n] = true
		e, err := k.dep.Fetch(n)
		if err != nil {
			vlib.Failf("what refers again to %s cannot be resolved: %s", n, err)
		}
		if e.Name() != n {
			vlib.Failf("the dependency %s is %s", n, e.Name())
		}
		k.element("dependency ", e)
	}
	if k.dep.IsEmpty() != (len(k.dep.All()) == 0) {
		vlib.Failf("IsEmpty is %v with %d dependencies", k.dep.IsEmpty(), len(k.dep.All()))
	}
	names := []string{}
	for _, e := range k.dep.All() {
		names = append(names, e.Name())
		if f, err := k.dep.Fetch(e.Name()); err != nil || f != e {
			vlib.Failf("the dependency %s is not found by its name", e.Name())
		}
	}
	sort.Strings(names)
	for i := 1; i < len(names); i++ {
		if names[i] == names[i-1] {
			vlib.Failf("two dependencies are named %s", names[i])
		}
	}
	return k.n
}

// refused tells whether the grammar must be refused: an undefined token, or a line that only consists of its own token.
func refused(g []lref.Token, known map[string]bool) bool {
	defined := map[string]bool{}
	for _, t := range g {
		defined[t.Name] = true
	}
	for _, t := range g {
		for _, l := range append(append([][]lref.Elem{}, t.Must...), t.Not...) {
			n := 0
			for _, e := range l {
				if !e.Switch {
					n++
				}
			}
			for _, e := range l {
				if e.Switch || e.IsRule() || known[e.Name] {
					continue
				}
				if !defined[e.Name] || (e.Name == t.Name && n == 1) {
					return true
				}
			}
		}
	}
	return false
}

func defsOf(g []lref.Token) map[string]lref.Token {
	out := map[string]lref.Token{}
	for _, t := range g {
		out[t.Name] = t
	}
	return out
}

func shallow(e paths.Element) string {
	out := []string{e.Name()}
	for i, ls := range [][]paths.Line{e.Must(), e.Not()} {
		for _, l := range ls {
			s := fmt.Sprint(i)
			for _, x := range l.Instructions() {
				switch {
				case x.IsChannelSwitch():
					s += " #"
				case x.Container().IsRule():
					s += " " + x.Container().Rule().Base().Name()
				case x.Container().IsToken():
					s += " (" + shallow(x.Container().Token().Path().Element()) + ")"
				case x.Container().IsRecursive():
					s += " @" + x.Container().Recursive().Name()
				}
			}
			out = append(out, s)
		}
	}
	return strings.Join(out, "|")
}

func digest(p paths.Path, err error) string {
	if err != nil {
		return "error"
	}
	out := []string{}
	for _, e := range p.Dependencies().All() {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return shallow(p.Element()) + " with " + strings.Join(out, ",")
}

func main() {
	r := vlib.New("C17")
	r.Rule = "every graph of up to three tokens over the pools of lines, with and without replacements and tokens defined elsewhere: everything that the path of each token refers to is compared with the definitions, for every order of the requests to one adapter; non-trivial: graphs with recursion"
	consts := lref.Grammar{Rules: lref.Constants}
	var theRules rules.Rules
	if p := vlib.Try(func() { theRules = ldrive.Rules(consts) }); p != nil {
		r.Violate("rules", fmt.Sprint(p))
		r.Finish()
	}
	a := lref.E("A", lref.Plus)
	b := lref.E("B", lref.One)
	x, y, z := lref.E("x", lref.One), lref.E("y", lref.Opt), lref.E("z", lref.Rg(1, 2))
	xs := lref.Elem{Name: "x", Card: lref.Star, Specs: []lref.Spec{{Name: "A", Card: lref.N(2)}}}
	ys := lref.Elem{Name: "y", Card: lref.One, Specs: []lref.Spec{{Name: "A", Card: lref.Rg(1, 2)}, {Name: "z", Card: lref.N(1)}}}
	u := lref.E("u", lref.One)
	pool := map[string][][]lref.Elem{
		"x": {{a}, {a, y}, {x, b}, {xs, a}, {z}, {y, z}, {lref.SW, a, lref.SW, ys}, {x}, {u, b}},
		"y": {{b}, {z, b}, {a, xs}, {y, a}, {x}, {b, z, lref.SW, x}, {a, u}},
		"z": {{a}, {ys}, {x, y}, {z, a, z}, {b, x}},
	}
	type block struct{ must, not [][]lref.Elem }
	blocks := map[string][]block{}
	for n, ls := range pool {
		for i, l := range ls {
			blocks[n] = append(blocks[n], block{must: [][]lref.Elem{l}})
			for j, m := range ls {
				if r.Thorough() || (n == "x" && (i+j)%2 == 1) || (i+j)%4 == 1 {
					blocks[n] = append(blocks[n], block{must: [][]lref.Elem{l, m}})
				}
				if (r.Thorough() && (i+j)%2 == 0) || (i+j)%5 == 2 {
					blocks[n] = append(blocks[n], block{must: [][]lref.Elem{l}, not: [][]lref.Elem{m}})
				}
			}
		}
	}
	elsewhere := []lref.Token{
		{Name: "u", Must: [][]lref.Elem{{lref.E("v", lref.Plus), a}, {b}}},
		{Name: "v", Must: [][]lref.Elem{{b, lref.E("u", lref.One)}, {a}}, Not: [][]lref.Elem{{a, b}}},
	}
	// tokens of the same names, and others, that are defined somewhere else
	strangers := ldrive.Tokens(theRules, []lref.Token{
		{Name: "x", Must: [][]lref.Elem{{b, y}, {b, b}}},
		{Name: "z", Must: [][]lref.Elem{{b, x, b}, {lref.E("w", lref.One)}}},
		{Name: "u", Must: [][]lref.Elem{{x, z, a}}},
		{Name: "w", Must: [][]lref.Elem{{y, x, lref.E("nowhere", lref.One)}}},
	})
	total := len(blocks["x"]) * len(blocks["y"])
	r.Parallel(total, func(i int) {
		if r.Expired("graphs") {
			return
		}
		bx, by := blocks["x"][i/len(blocks["y"])], blocks["y"][i%len(blocks["y"])]
		for zi, bz := range blocks["z"] {
			g := []lref.Token{{Name: "x", Must: bx.must, Not: bx.not}, {Name: "y", Must: by.must, Not: by.not}, {Name: "z", Must: bz.must, Not: bz.not}}
			id := fmt.Sprintf("g%d.%d", i, zi)
			r.State(id)
			text := lref.TokensText(g, ldrive.Style)
			fail := func(what string, p interface{}) {
				if f, ok := p.(vlib.Fail); ok {
					vlib.Failf("%s: %s\n%s", what, f.Msg, text)
				}
				panic(p)
			}
			r.Case(id, func() {
				toks := ldrive.Tokens(theRules, g)
				find := func(n string) tokens.Token {
					t, err := toks.Find(n)
					if err != nil {
						vlib.Failf("%s", err)
					}
					return t
				}
				build := func() paths.Adapter {
					ad, err := paths.NewAdapterBuilder().Create().WithTokens(toks).Now()
					if err != nil {
						vlib.Failf("%s", err)
					}
					return ad
				}
				ad := build()
				bad := refused(g, nil)
				first := map[string]string{}
				for _, n := range []string{"x", "y", "z"} {
					p, err := ad.ToPath(find(n))
					r.Step(1)
					if bad != (err != nil) {
						vlib.Failf("path of %s: error %v, refused %v\n%s", n, err, bad, text)
					}
					if err == nil {
						if q := vlib.Try(func() { r.Section("elements verified", int64(verify(n, defsOf(g), p))) }); q != nil {
							fail("path of "+n, q)
						}
						r.Nontrivial()
					}
					first[n] = digest(p, err)
					r.Outcome(first[n])
				}
				for _, order := range [][]string{{"z", "y", "x", "z"}, {"y", "y", "x"}} {
					if !r.Thorough() && zi%3 != 0 {
						break
					}
					ad := build()
					for _, n := range order {
						p, err := ad.ToPath(find(n))
						r.Step(1)
						if d := digest(p, err); d != first[n] {
							vlib.Failf("path of %s in the order %v:\n got  %s\n want %s\n%s", n, order, d, first[n], text)
						}
					}
				}
				if zi%4 != 0 && !r.Thorough() {
					return
				}
				// what is asked about tokens of others, some of which are refused, changes nothing for these ones
				if first["x"] != "" {
					ad := build()
					for k, n := range []string{"*x", "y", "*w", "x", "*u", "z", "*z", "y", "*w", "x"} {
						if n[0] == '*' {
							t, err := strangers.Find(n[1:])
							if err != nil {
								vlib.Failf("%s", err)
							}
							ad.ToPath(t)
							continue
						}
						p, err := ad.ToPath(find(n))
						r.Step(1)
						if d := digest(p, err); d != first[n] {
							vlib.Failf("path of %s, request %d, after those about tokens of others:\n got  %s\n want %s\n%s", n, k, d, first[n], text)
						}
						if err == nil {
							if q := vlib.Try(func() { verify(n, defsOf(g), p) }); q != nil {
								fail("path of "+n+" after tokens of others", q)
							}
						}
					}
				}
				// tokens defined elsewhere, and replacements
				other := ldrive.Tokens(theRules, elsewhere)
				oad, err := paths.NewAdapterBuilder().Create().WithTokens(other).Now()
				if err != nil {
					vlib.Failf("%s", err)
				}
				ut, err := other.Find("u")
				if err != nil {
					vlib.Failf("%s", err)
				}
				up, err := oad.ToPath(ut)
				if err != nil {
					vlib.Failf("path of u: %s", err)
				}
				for mode := 1; mode <= 3; mode++ {
					asked := map[string]bool{}
					builder := paths.NewAdapterBuilder().Create().WithTokens(toks)
					defs := defsOf(append(append([]lref.Token{}, g...), elsewhere...))
					known := map[string]bool{}
					if mode&1 != 0 {
						known["u"] = true
						builder.WithTokenNotFoundFunc(func(n string) paths.Path {
							asked[n] = true
							if n == "u" {
								return up
							}
							return nil
						})
					}
					if mode&2 != 0 {
						// every reference to z becomes one to u
						known["z"] = true
						builder.WithTokenReplacementFunc(func(n string) (paths.Element, []paths.Element) {
							if n == "z" {
								return up.Element(), up.Dependencies().All()
							}
							return nil, nil
						})
						defs["z"] = elsewhere[0]
					}
					ad, err := builder.Now()
					if err != nil {
						vlib.Failf("%s", err)
					}
					bad := refused(g, known)
					for _, n := range []string{"x", "y"} {
						p, err := ad.ToPath(find(n))
						r.Step(1)
						if bad != (err != nil) {
							vlib.Failf("mode %d, path of %s: error %v, refused %v\n%s", mode, n, err, bad, text)
						}
						if err == nil {
							if q := vlib.Try(func() { verify2(n, defs, p, mode&2 != 0, g) }); q != nil {
								fail(fmt.Sprintf("mode %d, path of %s", mode, n), q)
							}
							r.Outcome(digest(p, err))
						}
					}
					for n := range asked {
						if n == "x" || n == "y" || n == "z" {
							vlib.Failf("mode %d: the defined token %s was asked for\n%s", mode, n, text)
						}
					}
				}
			})
		}
	})
	// many tokens, lines, elements and specifiers
	larges := lref.Large(r.Thorough())
	r.Parallel(len(larges), func(i int) {
		c := larges[i]
		if len(c.G.Patterns) > 0 {
			return
		}
		id := fmt.Sprintf("large%d", i)
		r.State(id)
		r.Case(id, func() {
			rls := ldrive.Rules(c.G)
			for _, list := range [][]lref.Token{c.G.Tokens, c.G.Channels} {
				if len(list) == 0 {
					continue
				}
				toks := ldrive.Tokens(rls, list)
				ad, err := paths.NewAdapterBuilder().Create().WithTokens(toks).Now()
				if err != nil {
					vlib.Failf("%s", err)
				}
				for _, t := range toks.All() {
					p, err := ad.ToPath(t)
					r.Step(1)
					if err != nil {
						vlib.Failf("path of %s: %s", t.Name(), err)
					}
					r.Section("elements verified", int64(verify(t.Name(), defsOf(list), p)))
				}
			}
		})
	})
	r.Finish()
}

// verify2 verifies a path whose references to z are replaced; the token z itself keeps its own definition.
func verify2(root string, defs map[string]lref.Token, p paths.Path, replaced bool, g []lref.Token) {
	verify(root, defs, p)
	if !replaced {
		return
	}
	if strings.Contains(shallow(p.Element()), "(z|") || strings.Contains(shallow(p.Element()), "@z") {
		vlib.Failf("z was not replaced: %s", shallow(p.Element()))
	}
}
