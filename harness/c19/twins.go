package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// twins asks one application about grammars that have all their parts in common but one.
func twins(r *vlib.R) {
	E, One, Plus := lref.E, lref.One, lref.Plus
	base := func() lref.Case {
		return lref.Case{G: lref.Grammar{
			Groups:   []lref.Group{{Name: "L", Opts: []string{"a", "b"}}},
			Series:   []lref.Serie{{Name: "LET", Groups: []string{"L"}}},
			Patterns: []lref.Pattern{{Name: "letter", Choices: []lref.Choice{{Serie: "LET"}}}},
			Rules:    []lref.Rule{{Name: "A", Pats: []string{"letter"}, Card: Plus}, {Name: "B", Const: "-"}, {Name: "S", Const: " "}},
			Tokens: []lref.Token{
				{Name: "x", Must: [][]lref.Elem{{E("A", One), E("y", One)}, {E("y", One)}}, Not: [][]lref.Elem{{E("y", lref.N(2))}}, Suite: []string{"a-", "-", "c-", "--"}},
				{Name: "y", Must: [][]lref.Elem{{E("B", One)}}, Suite: []string{"-", "a"}},
			},
			Channels: []lref.Token{{Name: "s", Must: [][]lref.Elem{{E("S", One)}}}},
		}, Root: "x", Scripts: []string{"a-", "ab -", "c-", "--"}}
	}
	changes := []func(c *lref.Case){
		func(c *lref.Case) { c.G.Groups = []lref.Group{{Name: "L", Opts: []string{"c", "b"}}} },
		func(c *lref.Case) { c.G.Rules[0].Card = lref.N(1) },
		func(c *lref.Case) { c.G.Rules[1] = lref.Rule{Name: "B", Const: "a"} },
		func(c *lref.Case) { c.G.Rules[2] = lref.Rule{Name: "S", Const: "-"} },
		func(c *lref.Case) { c.G.Tokens[1].Must = [][]lref.Elem{{E("B", lref.N(2))}} },
		func(c *lref.Case) { c.G.Tokens[0].Not = [][]lref.Elem{{E("A", One)}} },
		func(c *lref.Case) { c.G.Tokens[0].Not = nil },
		func(c *lref.Case) { c.G.Channels = nil },
		func(c *lref.Case) { c.G.Channels[0].Must = [][]lref.Elem{{E("A", One)}} },
		func(c *lref.Case) { c.Root = "y" },
	}
	r.Parallel(len(changes), func(i int) {
		other := base()
		changes[i](&other)
		reqs := requests([]lref.Case{base(), other})
		want := make([]string, len(reqs))
		id := fmt.Sprintf("twins:%d", i)
		r.State(id)
		r.Case(id, func() {
			for j, q := range reqs {
				want[j] = q.do(ldrive.App())
				r.Outcome(want[j])
				if h := len(reqs) / 2; j >= h && want[j] != want[j-h] {
					r.Nontrivial()
				}
			}
		})
		dims := []int{}
		for j := 0; j < r.Pick(2, 3); j++ {
			dims = append(dims, len(reqs))
		}
		vlib.Product(dims, func(seq []int) {
			if r.Expired("twins") {
				return
			}
			id := fmt.Sprintf("twins:%d:%v", i, seq)
			r.State(id)
			seq = append([]int{}, seq...)
			r.Case(id, func() {
				app := ldrive.App()
				names := []string{}
				for _, x := range seq {
					names = append(names, reqs[x].name)
					got := reqs[x].do(app)
					r.Step(1)
					if got != want[x] {
						vlib.Failf("after %s:\n got  %s\n want %s", strings.Join(names, ", "), got, want[x])
					}
				}
			})
			r.Section("sequences about twins", 1)
		})
	})
}
