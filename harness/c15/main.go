// C15: a rule is read from its text as written, and matches exactly that constant or that amount of patterns.
package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func verifyRule(o rules.Rule, rl lref.Rule, text string) {
	if o.Name() != rl.Name {
		vlib.Failf("name %q instead of %q", o.Name(), rl.Name)
	}
	if !strings.Contains(text, o.Code()) || !strings.HasPrefix(o.Code(), rl.Name+":") || !strings.HasSuffix(o.Code(), ";") {
		vlib.Failf("code %q is not the definition of %q", o.Code(), rl.Name)
	}
	c := o.Element().Content()
	if c.IsConstant() != (len(rl.Pats) == 0) || c.IsPattern() != (len(rl.Pats) > 0) {
		vlib.Failf("kind is constant=%v pattern=%v", c.IsConstant(), c.IsPattern())
	}
	if c.IsConstant() {
		if c.Constant() != rl.Const {
			vlib.Failf("constant %q instead of %q", c.Constant(), rl.Const)
		}
		return
	}
	sub := c.Pattern().SubPatterns().All()
	if len(sub) != len(rl.Pats) {
		vlib.Failf("%d patterns instead of %d", len(sub), len(rl.Pats))
	}
	for i, n := range rl.Pats {
		if sub[i].Name() != n {
			vlib.Failf("pattern %d is %q instead of %q", i, sub[i].Name(), n)
		}
	}
	top := rl.Card.Max
	if top < rl.Card.Min {
		top = rl.Card.Min
	}
	for n := 0; n < top+10; n++ {
		if c.Pattern().Cardinality().IsValid(uint(n)) != rl.Card.Has(n) {
			vlib.Failf("the cardinality %q has %d: %v", rl.Card.Text, n, !rl.Card.Has(n))
		}
	}
}

func main() {
	r := vlib.New("C15")
	r.Rule = "every constant over the letters and every pattern list x cardinality, in every style, read back and compared; every rule x every content up to the length against a reference; every short text gives an answer; non-trivial: rules with more than one pattern or a bounded repetition"
	base := lref.Grammar{
		Groups: []lref.Group{{"A", []string{"a"}}, {"B", []string{"b", "ba"}}, {"C", []string{"c"}}},
		Series: []lref.Serie{{"A", []string{"A"}}, {"B", []string{"B"}}, {"AB", []string{"A", "B"}}, {"C", []string{"C"}}},
		Patterns: []lref.Pattern{
			{"a", []lref.Choice{{"A", false}}}, {"b", []lref.Choice{{"B", false}}}, {"ab", []lref.Choice{{"AB", false}}},
			{"until_c", []lref.Choice{{"C", true}}}, {"quoted", []lref.Choice{{"C", false}, {"C", true}, {"C", false}}},
		},
	}
	ps, err := patterns.NewAdapter().ToPatterns(base.PatternsText(lref.Styles[1]))
	if err != nil {
		r.Violate("base", err.Error())
		r.Finish()
	}
	ad := rules.NewAdapter()
	pad := lref.Style{Name: "pad", Sep: "\n", Pad: " "}
	styles := []lref.Style{{Name: "compact"}, pad, {Name: "lines", Sep: "\n\n", Pad: "\n"}}
	readIn := func(id string, g lref.Grammar, ps patterns.Patterns) {
		list := g.Rules
		for _, st := range styles {
			st := st
			id := id + ":" + st.Name
			r.State(id)
			r.Case(id, func() {
				text := g.RulesText(st)
				o, err := ad.Rules(text, ps)
				r.Step(1)
				if err != nil {
					vlib.Failf("refused: %s\n%s", err, text)
				}
				if len(o.All()) != len(list) {
					vlib.Failf("%d rules instead of %d", len(o.All()), len(list))
				}
				for i, rl := range list {
					verifyRule(o.All()[i], rl, text)
					f, err := o.Find(rl.Name)
					if err != nil {
						vlib.Failf("rule %q is not found", rl.Name)
					}
					verifyRule(f, rl, text)
				}
				if _, err := o.Find("NOT_THERE"); err == nil {
					vlib.Failf("an unknown rule is found")
				}
				r.Outcome(text)
			})
		}
	}
	read := func(id string, list []lref.Rule) {
		g := base
		g.Rules = list
		readIn(id, g, ps)
	}
	// many rules, many patterns in a rule, long constants and long names
	for i, c := range lref.Large(r.Thorough()) {
		r.Section("large", 1)
		if len(c.G.Patterns) == 0 {
			readIn(fmt.Sprintf("large:%d", i), c.G, nil)
			continue
		}
		large, err := patterns.NewAdapter().ToPatterns(c.G.PatternsText(lref.Styles[1]))
		if err != nil {
			r.Violate(fmt.Sprintf("large:%d", i), err.Error())
			continue
		}
		readIn(fmt.Sprintf("large:%d", i), c.G, large)
	}
	for _, n := range vlib.Sizes(r.Pick(1<<12+1, 1<<16+1)) {
		list := []lref.Rule{}
		for k, at := range []int{0, n / 2, n - 1} {
			list = append(list, lref.Rule{Name: fmt.Sprintf("R%c", 'A'+k), Const: strings.Repeat("m", at) + "n" + strings.Repeat("m", n-at-1)})
		}
		read(fmt.Sprintf("long:%d", n), list)
	}
	for a := 1; a <= r.Pick(20, 70); a++ {
		list := []lref.Rule{{Name: "RA", Pats: []string{"a"}, Card: lref.N(a)}, {Name: "RB", Pats: []string{"a"}, Card: lref.Rg(a, -1)}}
		for b := a; b <= a+20; b++ {
			list = append(list, lref.Rule{Name: fmt.Sprintf("RC_%c", 'A'+b-a), Pats: []string{"a"}, Card: lref.Rg(a, b)})
		}
		read(fmt.Sprintf("bounds:%d", a), list)
	}
	consts := vlib.Strings([]string{"a", "A", " ", `"`, "{", "[", "|", ",", ":", "\\n", "é", "]", "->", "*"}, 1, r.Pick(3, 4))
	r.Parallel(len(consts), func(i int) {
		read(fmt.Sprintf("constant:%q", consts[i]), []lref.Rule{{Name: "FIRST", Const: consts[i]}, {Name: "X_Y", Const: "z"}})
	})
	// every short text over the symbols
	texts := []string{}
	for _, t := range vlib.Texts(1, r.Pick(2, 3)) {
		// a backslash before a quotation mark is a part of it, and the byte zero stands for both while they are read
		if !strings.Contains(t+"\"", "\\\"") && !strings.Contains(t, "\x00") {
			texts = append(texts, t)
		}
	}
	r.Parallel(len(texts), func(i int) {
		read(fmt.Sprintf("text:%q", texts[i]), []lref.Rule{{Name: "FIRST", Const: texts[i]}, {Name: "X_Y", Const: "z"}})
	})
	cards := []lref.Card{lref.Plus, lref.Star, lref.Opt, lref.N(1), lref.N(2), lref.N(3), lref.Rg(0, 1), lref.Rg(1, 2), lref.Rg(2, 3), lref.Rg(2, -1), lref.Rg(0, -1), lref.Rg(0, 3)}
	names := []string{"a", "b", "ab", "until_c", "quoted"}
	ruleList := []lref.Rule{}
	vlib.Words(names, 1, r.Pick(2, 3), func(w []string) {
		for _, c := range cards {
			ruleList = append(ruleList, lref.Rule{Name: "R", Pats: w, Card: c})
		}
	})
	for i, x := range ruleList {
		y := ruleList[(i*7+3)%len(ruleList)]
		y.Name = "Q_"
		read(fmt.Sprintf("rule:%v%s", x.Pats, x.Card.Text), []lref.Rule{x, y})
		if len(x.Pats) > 1 || x.Card.Max > 1 {
			r.Nontrivial()
		}
	}
	// rules that cannot be read
	for _, b := range []string{`R: a;`, `R: [a;`, `R: [zz]+;`, `R: [a zz]+;`, `R: [a];`, `R: [a]!;`, `R: [a]{0};`, `R: [a]{-1};`, `R: [a]{3,1};`, `R: [a]++;`, `R: []+;`, `R: [ ]+;`, ``, ` `, `R`, `R: "a"`, `r: "a";`} {
		b := b
		r.Case(fmt.Sprintf("refused:%q", b), func() {
			o, err := ad.Rules(b, ps)
			r.Step(1)
			if err == nil {
				vlib.Failf("accepted with %d rules", len(o.All()))
			}
		})
	}
	r.Case("refused:without-patterns", func() {
		if _, err := ad.Rules(`R: [a]+;`, nil); err == nil {
			vlib.Failf("a rule over patterns is accepted without any pattern")
		}
		if _, err := ad.Rules(`R: "a";`, nil); err != nil {
			vlib.Failf("a constant needs no pattern: %s", err)
		}
	})
	r.Case("escape-code", func() {
		o, err := ad.Rules(`R: "###";`, ps)
		r.Step(1)
		if err != nil {
			vlib.Failf("refused: %s", err)
		}
		if c := o.All()[0].Element().Content().Constant(); c != "###" {
			vlib.FailKey("constant-with-the-escape-code", "the constant ### is read as %q", c)
		}
	})
	// the rule of the tests of the repository that is a quotation mark, not escaped
	for _, t := range []string{`R: """;`, `R:""";`, "R: \n \"\"\" \n;", `X: "x"; R: """; Y: "y";`} {
		t := t
		r.Case(fmt.Sprintf("quotation:%q", t), func() {
			o, err := ad.Rules(t, ps)
			r.Step(1)
			if err != nil {
				vlib.Failf("refused: %s", err)
			}
			rl, err := o.Find("R")
			if err != nil {
				vlib.Failf("not found: %s", err)
			}
			verifyRule(rl, lref.Rule{Name: "R", Const: `"`}, t)
		})
	}
	garbage := vlib.Strings([]string{"R", ":", `"`, "[", "]", "a", " ", ";", "+", "\\", "{1}"}, 0, r.Pick(5, 6))
	r.Parallel(64, func(w int) {
		for i := w; i < len(garbage); i += 64 {
			t := garbage[i]
			r.Case(fmt.Sprintf("text:%q", t), func() {
				o, err := ad.Rules(t, ps)
				r.Step(1)
				if (err == nil) != (o != nil) {
					vlib.Failf("error %v with an object: %v", err, o != nil)
				}
			})
		}
	})
	// matching
	contents := vlib.Strings([]string{"a", "b", "c"}, 0, r.Pick(6, 8))
	matching := append([]lref.Rule{}, ruleList...)
	for _, c := range vlib.Strings([]string{"a", "b", "c"}, 1, 3) {
		matching = append(matching, lref.Rule{Name: "R", Const: c})
	}
	r.Parallel(len(matching), func(i int) {
		g := base
		g.Rules = []lref.Rule{matching[i]}
		o, err := ad.Rules(g.RulesText(pad), ps)
		if err != nil {
			r.Violate(fmt.Sprintf("rule:%v", matching[i]), err.Error())
			return
		}
		rule := o.All()[0]
		res := results.NewAdapter()
		for _, c := range contents {
			c := c
			id := fmt.Sprintf("match:%v%s%s:%s", matching[i].Pats, matching[i].Card.Text, matching[i].Const, c)
			r.State(id)
			r.Case(id, func() {
				m := g.Once("R", c)
				out, err := res.ToResult(rule, c)
				r.Step(1)
				if err != nil {
					if m != nil {
						vlib.Failf("on %q: %s", c, err)
					}
					return
				}
				if out.Input().Name() != "R" {
					vlib.Failf("the input is %q", out.Input().Name())
				}
				if out.HasMatches() != (m != nil) {
					vlib.Failf("on %q: match %v instead of %v", c, out.HasMatches(), m != nil)
				}
				if m == nil {
					if out.Amount() != 0 || out.Content() != "" {
						vlib.Failf("content without a match")
					}
					return
				}
				if out.Content() != m.Content || int(out.Amount()) != m.Amount || out.Matches().Content() != m.Content || int(out.Matches().Amount()) != m.Amount {
					vlib.Failf("on %q: %q x%d instead of %q x%d", c, out.Content(), out.Amount(), m.Content, m.Amount)
				}
				l := out.Matches().List()
				for k, p := range m.Parts {
					if l[k].Discoveries().Content() != p.Content() || int(l[k].Discoveries().Index()) != p.Index || l[k].HasNext() != (p.Next != "") {
						vlib.Failf("on %q: part %d is %q at %d", c, k, l[k].Discoveries().Content(), l[k].Discoveries().Index())
					}
				}
				if m.Amount > 1 || m.Index > 0 {
					r.Nontrivial()
				}
				r.Outcome(fmt.Sprint(m.Amount, m.Index, len(m.Content)))
			})
		}
	})
	r.Finish()
}
