// C21: the tree of a parsed text mirrors its derivation, and is searched from the nearest.
package main

import (
	"fmt"

	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func main() {
	r := vlib.New("C21")
	r.Rule = "the tree of every accepted text of the families of grammars is compared with the derivation of the reference interpreter, and every name is searched in it; the map-iteration orders of a search and of the conversion are explored for part of them; non-trivial: trees with a nested token"
	cases := append(lref.Families(r.Thorough()), lref.LineFamilies(r.Thorough())...)
	cases = append(cases, lref.Spelled(cases, 3, lref.Spellings)...)
	names := []string{"x", "y", "z", "w", "A", "B", "C", "S", "T", "E", "AA", "ends", "LETTERS", "LETTER", "WORD", "ONE", "nothing"}
	type sample struct {
		id string
		c  lref.Case
		s  string
	}
	samples := make([][]sample, len(cases))
	r.Parallel(len(cases), func(i int) {
		if r.Expired("grammars") {
			return
		}
		c := cases[i]
		text := lref.TokensText(c.G.Tokens, ldrive.Style)
		id := fmt.Sprintf("%s:%d", c.Section, i)
		r.State(id)
		ref := &lref.Parser{G: c.G}
		r.Case(id, func() {
			ad := ldrive.Adapter(ldrive.Rules(c.G), c.G, c.Root)
			conv := roots.NewAdapter()
			for _, s := range c.Scripts {
				n, _ := ref.Parse(c.Root, s)
				if n == nil || ref.LeftRecursive || ref.Partial || ref.Exhausted || len(s) != len(n.Text) {
					continue
				}
				ast, err := ad.ToAST(s)
				if err != nil {
					vlib.Failf("error on %q: %s\n%s", s, err, text)
				}
				if !ast.IsSuccess() {
					vlib.Failf("%q is refused\n%s", s, text)
				}
				root, err := conv.ToRoot(ast.Success())
				r.Step(1)
				if err != nil {
					vlib.Failf("no tree on %q: %s\n%s", s, err, text)
				}
				got, want := ldrive.GotRoot(root), ldrive.WantRoot(n)
				if got != want {
					vlib.Failf("%s text %q\n got  %s\n want %s", text, s, got, want)
				}
				r.Outcome(want)
				nested := false
				for _, it := range n.Items {
					nested = nested || !it.Rule
				}
				if nested {
					r.Nontrivial()
				}
				if nested && len(n.Items) > 1 && len(samples[i]) < 2 {
					samples[i] = append(samples[i], sample{fmt.Sprintf("%s:%d:%s", c.Section, i, s), c, s})
				}
				for _, nm := range names {
					ldrive.Scan(root, nm)
				}
				if rt, _, _, _, err := root.Scan(c.Root); err != nil || rt != root {
					vlib.Failf("the root is not found by its own name in %s", got)
				}
				ldrive.ScanBelow(root, names)
				r.Step(len(names))
				if len(s) == 4 {
					r.Sample("%s text %q: %s", text, s, want)
				}
			}
		})
		r.Section(c.Section, int64(len(c.Scripts)))
	})
	// the orders of iteration
	stride := r.Pick(37, 7)
	runs := int64(0)
	k := 0
	for _, list := range samples {
		for _, x := range list {
			k++
			if k%stride != 0 || r.Expired("orders") {
				continue
			}
			x := x
			r.Case("orders "+x.id, func() {
				ad := ldrive.Adapter(ldrive.Rules(x.c.G), x.c.G, x.c.Root)
				ast, err := ad.ToAST(x.s)
				if err != nil {
					vlib.Failf("%s", err)
				}
				want := ""
				n, _ := vlib.MapOrders(1, 400, func(dev string) {
					root, err := roots.NewAdapter().ToRoot(ast.Success())
					if err != nil {
						vlib.Failf("%s", err)
					}
					got := ""
					for _, nm := range []string{"A", "B", "y", "x", "C", "S"} {
						_, node, _, _, err := root.Nodes().Scan(nm)
						if err == nil {
							got += nm + "=" + node.Content() + " "
						}
					}
					if want == "" {
						want = got
					}
					if got != want {
						vlib.Failf("with the iteration orders %s:\n got  %s\n want %s", dev, got, want)
					}
				})
				runs += int64(n)
			})
		}
	}
	r.Step(int(runs))
	r.Section("iteration orders", runs)
	r.Finish()
}
