// Package ldrive drives the real lexer with grammars of the reference model.
package ldrive

import (
	"fmt"

	applexers "github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	"github.com/steve-care-software/steve/domain/languages/lexers/paths"
	res_containers "github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	res_multiples "github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	res_singles "github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// Style is the way of writing grammars.
var Style = lref.Style{Name: "lines", Sep: "\n", Pad: " "}

// Rules reads the patterns and the rules of a grammar.
func Rules(g lref.Grammar) rules.Rules {
	var pats patterns.Patterns
	if len(g.Patterns) > 0 {
		p, err := patterns.NewAdapter().ToPatterns(g.PatternsText(Style))
		if err != nil {
			vlib.Failf("patterns refused: %s\n%s", err, g.PatternsText(Style))
		}
		pats = p
	}
	r, err := rules.NewAdapter().Rules(g.RulesText(Style), pats)
	if err != nil {
		vlib.Failf("rules refused: %s\n%s", err, g.RulesText(Style))
	}
	return r
}

// Tokens reads tokens, against rules that were read.
func Tokens(r rules.Rules, list []lref.Token) tokens.Tokens {
	ad, err := tokens.NewAdapterBuilder().Create().WithRules(r).Now()
	if err != nil {
		vlib.Failf("tokens adapter: %s", err)
	}
	t, err := ad.ToTokens(lref.TokensText(list, Style))
	if err != nil {
		vlib.Failf("tokens refused: %s\n%s", err, lref.TokensText(list, Style))
	}
	return t
}

// Builder prepares an AST adapter.
func Builder(r rules.Rules, g lref.Grammar, root string) asts.AdapterBuilder {
	toks := Tokens(r, g.Tokens)
	rt, err := toks.Find(root)
	if err != nil {
		vlib.Failf("root token: %s", err)
	}
	b := asts.NewAdapterBuilder().Create().WithRoot(rt).WithTokens(toks)
	if len(g.Channels) > 0 {
		b.WithChannels(Tokens(r, g.Channels))
	}
	return b
}

// Adapter builds an AST adapter.
func Adapter(r rules.Rules, g lref.Grammar, root string) asts.Adapter {
	ad, err := Builder(r, g, root).Now()
	if err != nil {
		vlib.Failf("adapter: %s\n%s", err, lref.TokensText(g.Tokens, Style))
	}
	return ad
}

// Node converts a derivation of the implementation.
func Node(t asts.Token) *lref.Node {
	n := &lref.Node{Token: t.Name(), Text: t.Discovery(), Line: int(t.Match().Index())}
	if t.Match().HasMatches() {
		for _, m := range t.Match().Matches() {
			if m.IsRule() == m.IsToken() {
				vlib.Failf("a match is not either a rule or a token")
			}
			if m.IsRule() {
				n.Items = append(n.Items, lref.Item{Name: m.Rule().Rule(), Rule: true, Text: m.Rule().Result().Discoveries().Content()})
				continue
			}
			it := lref.Item{Name: m.Token().Token()}
			for _, x := range m.Token().Matches() {
				if x.Name() != it.Name {
					vlib.Failf("a match of %q holds a token %q", it.Name, x.Name())
				}
				it.Nodes = append(it.Nodes, Node(x))
			}
			d := m.Token().Discoveries()
			if len(d) != len(it.Nodes) {
				vlib.Failf("%d discoveries of %d tokens", len(d), len(it.Nodes))
			}
			for i := range d {
				if d[i] != it.Nodes[i].Text {
					vlib.Failf("discovery %d is %q instead of %q", i, d[i], it.Nodes[i].Text)
				}
			}
			n.Items = append(n.Items, it)
		}
	}
	return n
}

// Mistake converts a mistake; the position is left to the caller.
func Mistake(m mistakes.Mistake) *lref.Mistake {
	out := &lref.Mistake{At: int(m.Index().Index())}
	c := m.Path().Container()
	if c.IsRule() == c.IsToken() {
		vlib.Failf("the path of the mistake is not either a rule or a token")
	}
	if c.IsRule() {
		out.Rule = c.Rule()
	} else {
		out.Token = c.Token()
	}
	x := m.Content()
	kinds := 0
	set := func(b bool, kind string) bool {
		if b {
			out.Kind = kind
			kinds++
		}
		return b
	}
	set(x.IsTokenHasNoMatch(), "nomatch")
	if set(x.IsContainsValidNotMatch(), "not") {
		out.Line = int(x.ContainsValidNotMatch().Line())
	}
	if set(x.IsSpecifierDoNotMatch(), "specifier") {
		out.Amount = int(x.SpecifierDoNotMatch().Amount())
		out.Name = x.SpecifierDoNotMatch().ContainerName()
		if x.SpecifierDoNotMatch().Cardinality().IsValid(x.SpecifierDoNotMatch().Amount()) {
			vlib.Failf("a specifier mistake with an admitted amount")
		}
	}
	if set(x.IsContainsNextElement(), "next") {
		next := x.ContainsNextElement().NextElement()
		if next.IsConstant() == next.IsPattern() {
			vlib.Failf("the next element is not either a constant or a pattern")
		}
		if next.IsConstant() {
			out.Next = fmt.Sprintf("%q", next.Constant())
		} else {
			out.Next = "pattern " + next.Pattern().Name()
		}
	}
	if set(x.IsCardinalityIsInvalid(), "cardinality") {
		out.Amount = int(x.CardinalityIsInvalid().Amount())
		if x.CardinalityIsInvalid().Cardinality().IsValid(x.CardinalityIsInvalid().Amount()) {
			vlib.Failf("a cardinality mistake with an admitted amount")
		}
	}
	if set(x.IsContainsPrefix(), "prefix") {
		out.Prefix = x.ContainsPrefix().Prefix()
	}
	if m.Path().HasParents() {
		vlib.Failf("the mistake is in %v, not in the root", m.Path().Parents())
	}
	if kinds != 1 {
		vlib.Failf("the mistake is of %d kinds", kinds)
	}
	return out
}

// Result of a parse, as one comparable text.
func Result(ast asts.AST) string {
	if ast.IsSuccess() == ast.IsMistake() {
		return fmt.Sprintf("success=%v mistake=%v", ast.IsSuccess(), ast.IsMistake())
	}
	if ast.IsMistake() {
		return "mistake " + Mistake(ast.Mistake()).Key()
	}
	n := Node(ast.Success())
	return fmt.Sprintf("%s %q", n, n.Text)
}

// App is an application with resources of a grammar.
func App() applexers.Application {
	p, err := paths.NewBuilder().Create().WithRules("/nonexistent").WithTokens("/nonexistent").WithChannels("/nonexistent").Now()
	if err != nil {
		vlib.Failf("paths: %s", err)
	}
	a, err := applexers.NewBuilder().Create().WithBasePaths(p).Now()
	if err != nil {
		vlib.Failf("application: %s", err)
	}
	return a
}

// Container is the resource of a grammar.
func Container(g lref.Grammar) res_containers.Container {
	pats := g.PatternsText(Style)
	if len(g.Patterns) == 0 {
		// the patterns are mandatory in a container
		pats = "unused : UN ;\nUN : $U ;\n$U : \"u\" ;\n"
	}
	c, err := res_containers.NewBuilder().Create().WithPatterns(pats).WithRules(g.RulesText(Style)).WithTokens(lref.TokensText(g.Tokens, Style)).Now()
	if err != nil {
		vlib.Failf("container: %s", err)
	}
	return c
}

// Multiple is the resource of a grammar with its channels.
func Multiple(g lref.Grammar) res_multiples.Multiple {
	b := res_multiples.NewBuilder().Create().WithContainer(Container(g))
	if len(g.Channels) > 0 {
		b.WithChannels(lref.TokensText(g.Channels, Style))
	}
	m, err := b.Now()
	if err != nil {
		vlib.Failf("multiple: %s", err)
	}
	return m
}

// Single is the resource of a grammar with a root token.
func Single(g lref.Grammar, root string) res_singles.Single {
	s, err := res_singles.NewBuilder().Create().WithMultiple(Multiple(g)).WithRootToken(root).Now()
	if err != nil {
		vlib.Failf("single: %s", err)
	}
	return s
}

// Content of a script.
func Content(s string) contents.Content {
	c, err := contents.NewBuilder().Create().WithContent(s).Now()
	if err != nil {
		vlib.Failf("content: %s", err)
	}
	return c
}
