// C13: the text of patterns is read as exactly the groups, series and patterns that it defines.
package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func verify(ps patterns.Patterns, g lref.Grammar) {
	groups, series := map[string]lref.Group{}, map[string]lref.Serie{}
	for _, x := range g.Groups {
		groups[x.Name] = x
	}
	for _, x := range g.Series {
		series[x.Name] = x
	}
	all := ps.All()
	if len(all) != len(g.Patterns) {
		vlib.Failf("%d patterns instead of %d", len(all), len(g.Patterns))
	}
	if ps.First().Name() != g.Patterns[0].Name {
		vlib.Failf("the first pattern is %q", ps.First().Name())
	}
	for i, p := range g.Patterns {
		one := all[i]
		f, err := ps.Find(p.Name)
		if err != nil || f.Name() != p.Name || one.Name() != p.Name {
			vlib.Failf("pattern %q is %q, found: %v", p.Name, one.Name(), err)
		}
		for _, o := range []patterns.Pattern{one, f} {
			cs := o.Content().List()
			if len(cs) != len(p.Choices) || int(o.Content().Length()) != len(p.Choices) {
				vlib.Failf("pattern %q has %d choices instead of %d", p.Name, len(cs), len(p.Choices))
			}
			for j, c := range p.Choices {
				s := series[c.Serie]
				if cs[j].IsReverse() != c.Rev || cs[j].Serie().Name() != s.Name {
					vlib.Failf("choice %d of %q is %q reverse=%v", j, p.Name, cs[j].Serie().Name(), cs[j].IsReverse())
				}
				gs := cs[j].Serie().Content().List()
				if len(gs) != len(s.Groups) || int(cs[j].Serie().Content().Length()) != len(s.Groups) {
					vlib.Failf("serie %q has %d groups instead of %d", s.Name, len(gs), len(s.Groups))
				}
				for k, gn := range s.Groups {
					if gs[k].Name() != "$"+gn {
						vlib.Failf("group %d of serie %q is %q instead of %q", k, s.Name, gs[k].Name(), "$"+gn)
					}
					want := groups[gn].Opts
					if strings.Join(gs[k].Content().List(), "\x00") != strings.Join(want, "\x00") || gs[k].Content().First() != want[0] || int(gs[k].Content().Length()) != len(want) {
						vlib.Failf("group %q is %q instead of %q", gn, gs[k].Content().List(), want)
					}
				}
			}
		}
	}
	if _, err := ps.Find("zz_not_there"); err == nil {
		vlib.Failf("an unknown pattern is found")
	}
}

func main() {
	r := vlib.New("C13")
	r.Rule = "every definition of 1-2 groups (every option list over the letters), 1-2 series and 1-2 patterns up to the length, in every style of writing, read back and compared; every reference replaced by an undefined name must be refused; non-trivial: definitions with reversed series or quotes"
	ad := patterns.NewAdapter()
	letters := []string{"a", `"`, "ab", " ", "/*", "$", "@", "é", "###", `a"b`}
	optLists := [][]string{}
	vlib.Words(letters, 1, r.Pick(2, 3), func(w []string) { optLists = append(optLists, w) })
	names := []string{"A", "B_C"}
	one := func(id string, g lref.Grammar) {
		for _, st := range lref.Styles {
			st := st
			g := g
			id := id + ":" + st.Name
			r.State(id)
			r.Case(id, func() {
				text := g.PatternsText(st)
				ps, err := ad.ToPatterns(text)
				r.Step(1)
				if err != nil {
					vlib.Failf("refused: %s\n%s", err, text)
				}
				verify(ps, g)
				r.Outcome(text)
			})
		}
	}
	// every option list in one group, and in the second of two groups
	for i, o := range optLists {
		one(fmt.Sprintf("options:%d:%q", i, o), lref.Grammar{
			Groups: []lref.Group{{"G", o}}, Series: []lref.Serie{{"S", []string{"G"}}},
			Patterns: []lref.Pattern{{"p", []lref.Choice{{"S", i%2 == 1}}}},
		})
		one(fmt.Sprintf("options2:%d:%q", i, o), lref.Grammar{
			Groups: []lref.Group{{"F", []string{"x"}}, {"G", o}}, Series: []lref.Serie{{"S", []string{"F", "G"}}},
			Patterns: []lref.Pattern{{"p", []lref.Choice{{"S", false}}}},
		})
	}
	// every short text over the symbols, as an option alone, first and last
	texts := []string{}
	for _, t := range vlib.Texts(1, r.Pick(2, 3)) {
		// a backslash before a quotation mark is a part of it, and the byte zero stands for both while they are read
		if !strings.Contains(t+"\"", "\\\"") && !strings.Contains(t, "\x00") {
			texts = append(texts, t)
		}
	}
	r.Parallel(len(texts), func(i int) {
		t := texts[i]
		for k, o := range [][]string{{t}, {t, "xy"}, {"xy", t}} {
			one(fmt.Sprintf("text:%d:%q", k, t), lref.Grammar{
				Groups: []lref.Group{{"F", []string{"x"}}, {"G", o}}, Series: []lref.Serie{{"S", []string{"F", "G"}}},
				Patterns: []lref.Pattern{{"p", []lref.Choice{{"S", i%2 == 1}}}},
			})
		}
	})
	// every structure
	serieBodies := [][]string{}
	vlib.Words(names, 1, 2, func(w []string) { serieBodies = append(serieBodies, w) })
	choices := []lref.Choice{{"S", false}, {"S", true}, {"T_T", false}, {"T_T", true}}
	var bodies [][]lref.Choice
	for n := 1; n <= r.Pick(2, 3); n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(choices)
		}
		vlib.Product(dims, func(idx []int) {
			b := []lref.Choice{}
			for _, x := range idx {
				b = append(b, choices[x])
			}
			bodies = append(bodies, b)
		})
	}
	grs := []lref.Group{{"A", []string{"a", "bb"}}, {"B_C", []string{`"`, "c"}}}
	r.Parallel(len(serieBodies), func(a int) {
		for _, t := range serieBodies {
			for i, p := range bodies {
				for j, q := range bodies {
					r.Nontrivial()
					one(fmt.Sprintf("structure:%v:%v:%d:%d", serieBodies[a], t, i, j), lref.Grammar{
						Groups: grs, Series: []lref.Serie{{"S", serieBodies[a]}, {"T_T", t}},
						Patterns: []lref.Pattern{{"p", p}, {"q_q", q}},
					})
				}
			}
		}
	})
	// many of each kind
	for i, c := range lref.Large(r.Thorough()) {
		if len(c.G.Patterns) > 0 {
			r.Section("large", 1)
			one(fmt.Sprintf("large:%d", i), c.G)
		}
	}
	for _, n := range []int{5, 9, 17, 33, 65} {
		// n definitions of each kind, that share what they use; and names of n letters, that differ at the end
		g := lref.Grammar{}
		for i := 0; i < n; i++ {
			x := fmt.Sprintf("%c%c", 'A'+i/26, 'A'+i%26)
			name := strings.Repeat("N", n) + x
			g.Groups = append(g.Groups, lref.Group{Name: x, Opts: []string{strings.ToLower(x)}}, lref.Group{Name: name, Opts: []string{x, strings.Repeat(x, n)}})
			g.Series = append(g.Series, lref.Serie{Name: x, Groups: []string{x, name}}, lref.Serie{Name: name, Groups: []string{name}})
			g.Patterns = append(g.Patterns, lref.Pattern{Name: strings.ToLower(x), Choices: []lref.Choice{{Serie: x, Rev: i%2 == 0}, {Serie: name}}}, lref.Pattern{Name: strings.ToLower(name), Choices: []lref.Choice{{Serie: name, Rev: i%3 == 0}}})
		}
		r.Section("large", 1)
		one(fmt.Sprintf("large names:%d", n), g)
	}
	// undefined references and nothing defined
	bad := []string{
		"p: S;", `p: S; S: $A;`, `p: S; $A: "a";`, `p: S; T: $A; $A: "a";`, `p: S T; S: $A; $A: "a";`, `p: @T; S: $A; $A: "a";`,
		`p: S; S: $A $B; $A: "a";`, `S: $A; $A: "a";`, `$A: "a";`, "", " ", "p", "p:", `p: S; S: $A; $B: "b";`, `p: S; q: T; S: $A; $A: "a";`,
	}
	for _, b := range bad {
		for _, pad := range []string{"", " ", "\n"} {
			b := strings.Replace(b, " ", " "+pad, -1)
			r.Case(fmt.Sprintf("undefined:%q", b), func() {
				ps, err := ad.ToPatterns(b)
				r.Step(1)
				if err == nil {
					vlib.Failf("accepted with %d patterns", len(ps.All()))
				}
			})
		}
	}
	// every short text: an answer, never a crash
	garbage := vlib.Strings([]string{"p", "S", "$A", ":", `"`, ";", ",", "@", " ", "a"}, 0, r.Pick(5, 6))
	r.Parallel(64, func(w int) {
		for i := w; i < len(garbage); i += 64 {
			t := garbage[i]
			r.Case(fmt.Sprintf("text:%q", t), func() {
				ps, err := ad.ToPatterns(t)
				r.Step(1)
				if (err == nil) != (ps != nil) {
					vlib.Failf("error %v with an object: %v", err, ps != nil)
				}
			})
		}
	})
	r.Finish()
}
