// C19: what a grammar makes of a text depends on nothing else.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	res_paths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// outcome of one parse: everything that can be observed in the result.
func outcome(ast asts.AST, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	out := ldrive.Result(ast)
	if ast.IsMistake() {
		i := ast.Mistake().Index()
		out += fmt.Sprintf(" at %d:%d", i.Line(), i.Column())
	}
	return out
}

func pathText(p paths.Path, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	out := []string{}
	for _, e := range p.Dependencies().All() {
		out = append(out, fmt.Sprintf("%s/%d", e.Name(), len(e.Must())))
	}
	sort.Strings(out)
	return fmt.Sprintf("%s/%d %s", p.Element().Name(), len(p.Element().Must()), strings.Join(out, " "))
}

// request to an application
type request struct {
	name string
	do   func(app lexers.Application) string
}

func requests(cases []lref.Case) []request {
	out := []request{}
	for i := range cases {
		c := cases[i]
		for _, s := range c.Scripts {
			s := s
			out = append(out, request{fmt.Sprintf("AST %d %q", i, s), func(app lexers.Application) string {
				return outcome(app.AST(ldrive.Single(c.G, c.Root), ldrive.Content(s)))
			}})
		}
		s := c.Scripts[0]
		out = append(out, request{fmt.Sprintf("Root %d %q", i, s), func(app lexers.Application) string {
			root, mistake, err := app.Root(ldrive.Single(c.G, c.Root), ldrive.Content(s))
			switch {
			case err != nil:
				return "error: " + err.Error()
			case (root == nil) == (mistake == nil):
				return fmt.Sprintf("root %v and mistake %v", root, mistake)
			case mistake != nil:
				return "mistake " + ldrive.Mistake(mistake).Key()
			}
			return ldrive.GotRoot(root)
		}})
		out = append(out, request{fmt.Sprintf("Tests %d", i), func(app lexers.Application) string {
			list, err := app.Tests(ldrive.Multiple(c.G))
			if err != nil {
				return "error: " + err.Error()
			}
			lines := []string{}
			for _, x := range list {
				l := x.Name()
				for _, y := range x.Lines() {
					l += fmt.Sprintf(" %d=%v", y.Index(), y.IsSuccess())
				}
				lines = append(lines, l)
			}
			return strings.Join(lines, "; ")
		}})
		for _, t := range c.G.Tokens {
			t := t
			out = append(out, request{fmt.Sprintf("Path %d %s", i, t.Name), func(app lexers.Application) string {
				p, err := res_paths.NewBuilder().Create().WithContainer(ldrive.Container(c.G)).WithRootToken(t.Name).Now()
				if err != nil {
					vlib.Failf("%s", err)
				}
				return pathText(app.Path(p))
			}})
		}
	}
	return out
}

func main() {
	r := vlib.New("C19")
	r.Rule = "(1) for the grammars of the families: one adapter parses every text in several orders, another one each text alone, and the application parses the same resources: all results are equal; (2) every sequence of requests (parses, trees, tests, paths of several grammars) to one application answers as a new application; (3) every sequence of requests about two grammars that differ in one part only (patterns, a rule, tokens, an excluded line, channels, the root) answers as new applications; (4) every choice of up to one (two) deviating map-iteration order gives the same result; non-trivial: accepted texts"
	cases := lref.Families(false)
	stride := r.Pick(3, 1)
	r.Parallel(len(cases)/stride, func(k int) {
		if r.Expired("grammars") {
			return
		}
		i := k*stride + k/7%stride // whatever the period of the family
		c := cases[i]
		id := fmt.Sprintf("%s:%d", c.Section, i)
		r.State(id)
		text := lref.TokensText(c.G.Tokens, ldrive.Style)
		ref := &lref.Parser{G: c.G}
		scripts := []string{}
		for j, s := range c.Scripts {
			ref.Parse(c.Root, s)
			if ref.LeftRecursive && len(s) > 1 {
				continue
			}
			if j%2 == 0 || r.Thorough() {
				scripts = append(scripts, s)
			}
		}
		r.Case(id, func() {
			app := ldrive.App()
			fresh := map[string]string{}
			for _, s := range scripts {
				ast, err := ldrive.Adapter(ldrive.Rules(c.G), c.G, c.Root).ToAST(s)
				fresh[s] = outcome(ast, err)
				if err == nil && ast.IsSuccess() {
					r.Nontrivial()
				}
				r.Outcome(fresh[s])
			}
			one := ldrive.Adapter(ldrive.Rules(c.G), c.G, c.Root)
			again := func(s, how string) {
				got := outcome(one.ToAST(s))
				r.Step(1)
				if got != fresh[s] {
					vlib.Failf("%s text %q %s:\n got  %s\n want %s", text, s, how, got, fresh[s])
				}
			}
			for _, s := range scripts {
				again(s, "after the texts before it")
			}
			for j := len(scripts) - 1; j >= 0; j-- {
				again(scripts[j], "after the texts after it")
				again(scripts[(j*7+3)%len(scripts)], "after another one")
			}
			for j, s := range scripts {
				if s == "" || (j%3 != 0 && !r.Thorough()) {
					continue
				}
				got := outcome(app.AST(ldrive.Single(c.G, c.Root), ldrive.Content(s)))
				r.Step(1)
				if got != fresh[s] {
					vlib.Failf("%s text %q by the application:\n got  %s\n want %s", text, s, got, fresh[s])
				}
			}
		})
		r.Section("one adapter: "+c.Section, 1)
	})

	// sequences of requests
	pick := []lref.Case{
		{G: lref.Grammar{Rules: lref.Constants, Tokens: []lref.Token{
			{Name: "x", Must: [][]lref.Elem{{lref.E("A", lref.Plus), lref.E("y", lref.Opt)}}, Suite: []string{"aab", "b"}},
			{Name: "y", Must: [][]lref.Elem{{lref.E("B", lref.One), lref.E("x", lref.Opt)}}, Suite: []string{"ba"}},
		}}, Root: "x", Scripts: []string{"aab", "b"}},
		{G: lref.Grammar{Rules: []lref.Rule{{Name: "A", Const: "b"}, {Name: "B", Const: "a"}, {Name: "S", Const: " "}}, Tokens: []lref.Token{
			{Name: "x", Must: [][]lref.Elem{{lref.E("B", lref.N(2)), lref.E("y", lref.One)}, {lref.E("B", lref.One)}}, Suite: []string{"a a b", "bb"}},
			{Name: "y", Must: [][]lref.Elem{{lref.E("A", lref.One)}}, Not: [][]lref.Elem{{lref.E("A", lref.N(2))}}},
		}, Channels: []lref.Token{{Name: "s", Must: [][]lref.Elem{{lref.E("S", lref.Plus)}}}}}, Root: "x", Scripts: []string{"a ab", "aabb"}},
		{G: lref.Grammar{Rules: lref.Constants, Tokens: []lref.Token{
			{Name: "y", Must: [][]lref.Elem{{lref.E("C", lref.One), lref.E("u", lref.One)}}},
		}}, Root: "y", Scripts: []string{"ca"}},
	}
	reqs := requests(pick)
	want := make([]string, len(reqs))
	r.Case("alone", func() {
		for i, q := range reqs {
			want[i] = q.do(ldrive.App())
			r.Outcome(want[i])
			r.Sample("%s -> %s", q.name, want[i])
		}
	})
	depth := r.Pick(3, 4)
	r.Parallel(len(reqs)*len(reqs), func(k int) {
		if r.Expired("sequences") {
			return
		}
		dims := []int{}
		for j := 2; j < depth; j++ {
			dims = append(dims, len(reqs))
		}
		vlib.Product(dims, func(rest []int) {
			seq := append([]int{k / len(reqs), k % len(reqs)}, rest...)
			id := fmt.Sprintf("seq:%v", seq)
			r.State(id)
			r.Case(id, func() {
				app := ldrive.App()
				names := []string{}
				for _, x := range seq {
					names = append(names, reqs[x].name)
					got := reqs[x].do(app)
					r.Step(1)
					if got != want[x] {
						vlib.Failf("after %s:\n got  %s\n want %s", strings.Join(names, ", "), got, want[x])
					}
				}
			})
			r.Section("sequences of requests", 1)
		})
	})

	twins(r)

	// map-iteration orders
	runs := 0
	os := r.Pick(211, 29)
	for i := 0; i < len(cases); i += os {
		c := cases[i]
		s := c.Scripts[(i/os*13+7)%len(c.Scripts)]
		ref := &lref.Parser{G: c.G}
		ref.Parse(c.Root, s)
		if s == "" || ref.LeftRecursive || r.Expired("orders") {
			continue
		}
		r.Case(fmt.Sprintf("orders %s:%d %q", c.Section, i, s), func() {
			want := ""
			n, _ := vlib.MapOrders(r.Pick(1, 2), r.Pick(150, 1500), func(dev string) {
				got := outcome(ldrive.Adapter(ldrive.Rules(c.G), c.G, c.Root).ToAST(s))
				if want == "" {
					want = got
				}
				if got != want {
					vlib.Failf("%s text %q with the iteration orders %s:\n got  %s\n want %s", lref.TokensText(c.G.Tokens, ldrive.Style), s, dev, got, want)
				}
			})
			runs += n
		})
	}
	r.Step(runs)
	r.Section("iteration orders", int64(runs))
	r.Finish()
}
