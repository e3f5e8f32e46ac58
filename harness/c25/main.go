// C25: an included grammar is read as if it were written in place.
package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	apaths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/paths"
	res_containers "github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	res_multiples "github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	res_paths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
	res_singles "github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

const noPatterns = "unused : UN ;\nUN : $U ;\n$U : \"u\" ;\n"

func app(dir string, replacements ...map[string]apaths.Path) lexers.Application {
	p, err := paths.NewBuilder().Create().WithRules(filepath.Join(dir, "rules")).WithTokens(filepath.Join(dir, "tokens")).WithChannels(filepath.Join(dir, "channels")).Now()
	if err != nil {
		vlib.Failf("paths: %s", err)
	}
	b := lexers.NewBuilder().Create().WithBasePaths(p)
	for _, m := range replacements {
		b.WithReplacementPaths(m)
	}
	a, err := b.Now()
	if err != nil {
		vlib.Failf("application: %s", err)
	}
	return a
}

func multiple(f *file, channels []lref.Token, st style) res_multiples.Multiple {
	c, err := res_containers.NewBuilder().Create().WithPatterns(noPatterns).WithRules(lref.Grammar{Rules: f.Rules}.RulesText(st.Tokens)).WithTokens(f.text(st)).Now()
	if err != nil {
		vlib.Failf("container: %s", err)
	}
	b := res_multiples.NewBuilder().Create().WithContainer(c)
	if len(channels) > 0 {
		b.WithChannels(lref.TokensText(channels, st.Tokens))
	}
	m, err := b.Now()
	if err != nil {
		vlib.Failf("multiple: %s", err)
	}
	return m
}

func single(f *file, channels []lref.Token, st style) res_singles.Single {
	s, err := res_singles.NewBuilder().Create().WithMultiple(multiple(f, channels, st)).WithRootToken(f.Tokens[0].Name).Now()
	if err != nil {
		vlib.Failf("single: %s", err)
	}
	return s
}

func pathResource(f *file, st style) res_paths.Path {
	p, err := res_paths.NewBuilder().Create().WithContainer(multiple(f, nil, st).Container()).WithRootToken(f.Tokens[0].Name).Now()
	if err != nil {
		vlib.Failf("path resource: %s", err)
	}
	return p
}

func outcome(ast asts.AST, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return ldrive.Result(ast)
}

func refOutcome(g lref.Grammar, root, s string) (string, bool) {
	p := &lref.Parser{G: g}
	n, m := p.Parse(root, s)
	if p.LeftRecursive || p.Partial || p.Exhausted {
		return "", false
	}
	if m != nil {
		return shown("mistake " + m.Key()), true
	}
	return shown(fmt.Sprintf("%s %q", n, n.Text)), true
}

func temp() string {
	dir, err := ioutil.TempDir("", "c25")
	if err != nil {
		panic(err)
	}
	return dir
}

func main() {
	r := vlib.New("C25")
	r.Rule = "(1) grammars with includes (one, several, nested), references, replacements (in every order, through nested includes), channels, names that coincide, in three styles: every text up to the bound gives the derivation that the reference parser finds in the merged grammar, and the trees and tests agree; (2) directives with names that look like keywords, in every spacing and place, are read as written, and every sequence of fragments up to the bound is read or refused; (3) what cannot be linked is refused; (4) every sequence of requests to one application answers as a new one; non-trivial: accepted texts, directives that link"
	all := append(families(r.Thorough()), many(r.Thorough())...)
	r.Parallel(len(all), func(k int) {
		if r.Expired("grammars") {
			return
		}
		c := all[k]
		st := styles[k%len(styles)]
		g, root, bad := merged(c.f, c.channels)
		if ambiguous(g) {
			r.Section(c.section+": ambiguous", 1)
			return
		}
		id := fmt.Sprintf("%s:%d", c.section, k)
		r.State(id)
		r.Case(id, func() {
			dir := temp()
			defer os.RemoveAll(dir)
			c.f.write(dir, st)
			a := app(dir)
			accepted := 0
			for _, s := range c.scripts {
				ast, err := a.AST(single(c.f, c.channels, st), ldrive.Content(s))
				got := outcome(ast, err)
				r.Step(1)
				if bad != "" {
					if err == nil {
						vlib.Failf("%s\n%q is not declared, text %q gives %s", describe(c.f), bad, s, got)
					}
					r.Outcome("refused")
					return
				}
				want, ok := refOutcome(g, root, s)
				if !ok {
					continue
				}
				r.Outcome(want)
				if strings.HasPrefix(want, "mistake") {
					// what is said of a mistake is decided by C20
					if !strings.HasPrefix(got, "mistake") {
						vlib.Failf("%s\ntext %q:\n got  %s\n want %s", describe(c.f), s, got, want)
					}
					continue
				}
				accepted++
				if got != want {
					vlib.Failf("%s\ntext %q:\n got  %s\n want %s", describe(c.f), s, got, want)
				}
			}
			testsOf(r, c, a, g, root, st)
			if accepted > 0 {
				r.Nontrivial()
			}
		})
		r.Section(c.section, 1)
	})
	reading(r)
	refusals(r)
	findings(r)
	replaced(r)
	histories(r, all)
	r.Finish()
}
