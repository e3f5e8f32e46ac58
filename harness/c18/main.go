// C18: a text is read as the derivation that the grammar defines.
package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func main() {
	r := vlib.New("C18")
	r.Rule = "every grammar of the families (one line, alternatives, excluded lines, recursion, channels and switches, specifiers, patterns) x every text over its alphabet up to the depth, parsed by the real lexer and by a reference interpreter; the verdict and the whole derivation are compared; non-trivial: texts that are accepted"
	cases := append(lref.Families(r.Thorough()), lref.LineFamilies(r.Thorough())...)
	cases = append(cases, lref.SpelledAndNamed(cases, 1, lref.Spellings)...)
	silent := make([]int64, len(cases))
	r.Parallel(len(cases), func(i int) {
		if r.Expired("grammars") {
			return
		}
		c := cases[i]
		text := lref.TokensText(c.G.Tokens, ldrive.Style)
		id := fmt.Sprintf("%s:%d", c.Section, i)
		r.State(id)
		ref := &lref.Parser{G: c.G}
		r.Case(id, func() {
			ad := ldrive.Adapter(ldrive.Rules(c.G), c.G, c.Root)
			for _, s := range c.Scripts {
				n, bad := ref.Parse(c.Root, s)
				if ref.LeftRecursive && len(s) > 1 {
					// the reference is silent, and the implementation tries exponentially many ways
					silent[i]++
					continue
				}
				if ref.Exhausted && strings.Contains(c.Section, "spelled") {
					// too many ways: the letters are no longer told from each other
					silent[i]++
					continue
				}
				ast, err := ad.ToAST(s)
				r.Step(1)
				if err != nil {
					vlib.FailKey(fmt.Sprintf("%s on %q", text, s), "error on %q: %s\n%s", s, err, text)
				}
				if ref.Exhausted {
					vlib.Failf("the reference does not end on %q\n%s", s, text)
				}
				if ref.LeftRecursive || ref.Partial {
					silent[i]++
					continue
				}
				if ast.IsSuccess() == ast.IsMistake() {
					vlib.Failf("on %q: success=%v mistake=%v", s, ast.IsSuccess(), ast.IsMistake())
				}
				want := "refused"
				if bad == nil {
					want = fmt.Sprintf("%s reads %q", n, n.Text)
					r.Nontrivial()
				}
				got := "refused"
				if ast.IsSuccess() {
					m := ldrive.Node(ast.Success())
					got = fmt.Sprintf("%s reads %q", m, m.Text)
				}
				if got != want {
					vlib.FailKey(fmt.Sprintf("%s on %q", text, s), "%s text %q\n got  %s\n want %s\nchannels: %s", text, s, got, want, lref.TokensText(c.G.Channels, ldrive.Style))
				}
				r.Outcome(want)
				if len(s) == 4 && bad == nil {
					r.Sample("%s text %q: %s", text, s, want)
				}
			}
		})
		r.Section(c.Section, int64(len(c.Scripts)))
	})
	total := int64(0)
	for _, n := range silent {
		total += n
	}
	r.Section("not compared (left recursion, partial patterns)", total)
	r.Finish()
}
