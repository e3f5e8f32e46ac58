// C22: the tests of a grammar pass exactly when the grammar accepts their text.
package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/steve-care-software/steve/domain/languages/lexers/suites"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func main() {
	r := vlib.New("C22")
	r.Rule = "the grammars of the families, each of their tokens with every text (of the alphabet, up to the depth) in its test suite: the verdict of every line of every suite, its index, the names and the order of the suites are compared with the reference interpreter, through the application and through the suites of read tokens; non-trivial: lines that pass"
	ldrive.Style = lref.Style{Name: "tight", Sep: "\n"}
	cases := append(lref.Families(r.Thorough()), lref.LineFamilies(r.Thorough())...)
	// not those whose texts would end with spaces or be taken for the end of a test
	sp := lref.Spellings
	cases = append(cases, lref.SpelledAndNamed(cases, 3, []map[string]string{sp[0], sp[1], sp[2], sp[3], sp[5], sp[7], sp[8], sp[9]})...)
	stride := r.Pick(2, 3)
	r.Parallel(len(cases)/stride, func(k int) {
		if r.Expired("grammars") {
			return
		}
		i := k*stride + k/3%stride
		c := cases[i]
		id := fmt.Sprintf("%s:%d", c.Section, i)
		r.State(id)
		ref := &lref.Parser{G: c.G}
		g := c.G
		g.Tokens = append([]lref.Token{}, c.G.Tokens...)
		names := []string{}
		verdicts := [][]bool{}
		for j, t := range g.Tokens {
			if (k+j)%4 == 3 {
				continue // a token without tests
			}
			texts := []string{}
			ok := []bool{}
			for m, s := range c.Scripts {
				if s == "" || (m+i)%r.Pick(3, 2) == 0 {
					continue
				}
				n, _ := ref.Parse(t.Name, s)
				if ref.LeftRecursive || ref.Partial || ref.Exhausted {
					continue
				}
				texts = append(texts, s)
				ok = append(ok, n != nil)
				if n != nil {
					r.Nontrivial()
				}
			}
			if len(texts) == 0 {
				continue
			}
			// the verdict of a line does not depend on its place
			if i%2 == 1 {
				for a, b := 0, len(texts)-1; a < b; a, b = a+1, b-1 {
					texts[a], texts[b] = texts[b], texts[a]
					ok[a], ok[b] = ok[b], ok[a]
				}
			}
			// the end of the last line is not significant
			if last := len(texts) - 1; strings.TrimRightFunc(texts[last], unicode.IsSpace) != texts[last] {
				texts, ok = texts[:last], ok[:last]
				if last == 0 {
					continue
				}
				texts, ok = append(texts, texts[0]+"a"), append(ok, false)
				n, _ := ref.Parse(t.Name, texts[last])
				if ref.LeftRecursive || ref.Partial || ref.Exhausted {
					continue
				}
				ok[last] = n != nil
			}
			g.Tokens[j].Suite = texts
			names = append(names, t.Name)
			verdicts = append(verdicts, ok)
		}
		r.Case(id, func() {
			text := lref.TokensText(c.G.Tokens, ldrive.Style)
			check := func(how string, list []suites.Suite, err error) {
				if err != nil {
					vlib.Failf("%s: %s\n%s", how, err, text)
				}
				if len(list) != len(names) {
					vlib.Failf("%s: %d suites instead of %d\n%s", how, len(list), len(names), text)
				}
				for j, x := range list {
					if x.Name() != names[j] {
						vlib.Failf("%s: suite %d is that of %s instead of %s\n%s", how, j, x.Name(), names[j], text)
					}
					if len(x.Lines()) != len(verdicts[j]) {
						vlib.Failf("%s: %d lines in the suite of %s instead of %d\n%s", how, len(x.Lines()), x.Name(), len(verdicts[j]), text)
					}
					for m, l := range x.Lines() {
						r.Step(1)
						t := ""
						for _, y := range g.Tokens {
							if y.Name == names[j] {
								t = y.Suite[m]
							}
						}
						if l.Index() != uint(m) {
							vlib.Failf("%s: line %d of %s has the index %d\n%s", how, m, names[j], l.Index(), text)
						}
						if l.IsSuccess() != verdicts[j][m] {
							vlib.Failf("%s: the test %q of %s passes: %v, want %v\n%s", how, t, names[j], l.IsSuccess(), verdicts[j][m], text)
						}
						r.Outcome(fmt.Sprintf("%s %q %v", names[j], t, l.IsSuccess()))
					}
				}
			}
			list, err := ldrive.App().Tests(ldrive.Multiple(g))
			check("application", list, err)
			if i%3 == 0 {
				rules := ldrive.Rules(g)
				b := suites.NewApplicationBuilder().Create().WithTokens(ldrive.Tokens(rules, g.Tokens))
				if len(g.Channels) > 0 {
					b.WithChannels(ldrive.Tokens(rules, g.Channels))
				}
				app, err := b.Now()
				if err != nil {
					vlib.Failf("%s", err)
				}
				list, err := app.Execute()
				check("suites", list, err)
				list, err = app.Execute()
				check("suites again", list, err)
			}
		})
		r.Section(c.Section, 1)
	})
	r.Finish()
}
