// C20: a refused text is refused for the reason, and at the place, that the grammar defines.
package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func main() {
	r := vlib.New("C20")
	r.Rule = "every grammar of the families x every text over its alphabet up to the depth, and grammars whose texts have several lines; the kind, the container, the amounts, the index, the line and the column of the mistake are compared with those of a reference interpreter; non-trivial: texts that are refused"
	cases := lref.Families(r.Thorough())
	cases = append(cases, lref.LineFamilies(r.Thorough())...)
	cases = append(cases, lref.SpelledAndNamed(cases, 2, lref.Spellings)...)
	silent := make([]int64, len(cases))
	r.Parallel(len(cases), func(i int) {
		if r.Expired("grammars") {
			return
		}
		c := cases[i]
		text := lref.TokensText(c.G.Tokens, ldrive.Style)
		id := fmt.Sprintf("%s:%d", c.Section, i)
		r.State(id)
		ref := &lref.Parser{G: c.G}
		r.Case(id, func() {
			ad := ldrive.Adapter(ldrive.Rules(c.G), c.G, c.Root)
			for _, s := range c.Scripts {
				_, bad := ref.Parse(c.Root, s)
				if ref.Exhausted && strings.Contains(c.Section, "spelled") {
					silent[i]++
					continue
				}
				if ref.Exhausted {
					vlib.Failf("the reference does not end on %q\n%s", s, text)
				}
				if ref.LeftRecursive || ref.Partial {
					silent[i]++
					continue
				}
				ast, err := ad.ToAST(s)
				r.Step(1)
				if err != nil {
					vlib.FailKey(fmt.Sprintf("%s on %q", text, s), "error on %q: %s\n%s", s, err, text)
				}
				want := "accepted"
				if bad != nil {
					l, col := lref.Position(s, bad.At)
					want = fmt.Sprintf("%s at %d:%d", bad.Key(), l, col)
					r.Nontrivial()
				}
				got := "accepted"
				if ast.IsMistake() {
					m := ldrive.Mistake(ast.Mistake())
					ix := ast.Mistake().Index()
					got = fmt.Sprintf("%s at %d:%d", m.Key(), ix.Line(), ix.Column())
				}
				if got != want {
					vlib.FailKey(fmt.Sprintf("%s on %q", text, s), "%s text %q\n got  %s\n want %s\nchannels: %s", text, s, got, want, lref.TokensText(c.G.Channels, ldrive.Style))
				}
				r.Outcome(want)
				if len(s) == 4 && bad != nil {
					r.Sample("%s text %q: %s", text, s, want)
				}
			}
		})
		r.Section(c.Section, int64(len(c.Scripts)))
	})
	total := int64(0)
	for _, n := range silent {
		total += n
	}
	r.Section("not compared (left recursion, partial patterns)", total)
	r.Finish()
}
