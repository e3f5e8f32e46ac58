// C16: the text of tokens is read as exactly the productions it defines.
package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func verifyCard(has func(uint) bool, c lref.Card, where string) {
	top := c.Max
	if top < c.Min {
		top = c.Min
	}
	for n := 0; n < top+7; n++ {
		if has(uint(n)) != c.Has(n) {
			vlib.Failf("%s: %q admits %d: %v", where, c.Text, n, !c.Has(n))
		}
	}
}

func verifyLines(where string, lines tokens.Lines, want [][]lref.Elem) {
	all := lines.All()
	if len(all) != len(want) {
		vlib.Failf("%s: %d lines instead of %d", where, len(all), len(want))
	}
	for i, w := range want {
		ins := all[i].Instructions()
		if len(ins) != len(w) {
			vlib.Failf("%s line %d: %d instructions instead of %d", where, i, len(ins), len(w))
		}
		for j, e := range w {
			at := fmt.Sprintf("%s line %d instruction %d", where, i, j)
			if ins[j].IsChannelSwitch() != e.Switch || ins[j].IsElement() == e.Switch {
				vlib.Failf("%s: switch=%v element=%v", at, ins[j].IsChannelSwitch(), ins[j].IsElement())
			}
			if e.Switch {
				continue
			}
			el := ins[j].Element()
			c := el.Content()
			if c.Name() != e.Name || c.IsRule() != e.IsRule() || c.IsToken() == e.IsRule() {
				vlib.Failf("%s is %q (rule=%v) instead of %q", at, c.Name(), c.IsRule(), e.Name)
			}
			if el.HasCardinality() != (e.Card.Text != "") {
				vlib.Failf("%s: has a cardinality: %v", at, el.HasCardinality())
			}
			if el.HasCardinality() {
				var card cardinality.Cardinality = el.Cardinality()
				verifyCard(card.IsValid, e.Card, at)
			}
			if e.IsRule() {
				if c.Rule().Name() != e.Name {
					vlib.Failf("%s: rule %q", at, c.Rule().Name())
				}
				continue
			}
			tr := c.Token()
			if tr.Name() != e.Name || tr.HasSpecifiers() != (len(e.Specs) > 0) {
				vlib.Failf("%s: token %q with specifiers: %v", at, tr.Name(), tr.HasSpecifiers())
			}
			if !tr.HasSpecifiers() {
				continue
			}
			sp := tr.Specifiers().All()
			if len(sp) != len(e.Specs) {
				vlib.Failf("%s: %d specifiers instead of %d", at, len(sp), len(e.Specs))
			}
			for k, s := range e.Specs {
				isRule := s.Name[0] >= 'A' && s.Name[0] <= 'Z'
				sc := sp[k].Content()
				if sc.Name() != s.Name || sc.IsRule() != isRule || sc.IsToken() == isRule {
					vlib.Failf("%s: specifier %d is %q", at, k, sc.Name())
				}
				verifyCard(sp[k].Cardinality().IsValid, s.Card, at+" specifier")
				if f, err := tr.Specifiers().Find(s.Name); err != nil || f.Content().Name() != s.Name {
					vlib.Failf("%s: specifier %q is not found", at, s.Name)
				}
			}
		}
	}
}

func main() {
	r := vlib.New("C16")
	r.Rule = "every production of up to 2 lines of up to 2 (3) elements over tokens, rules and channel switches x every cardinality x specifiers, with and without not-lines and test suites, in every style of writing, read back and compared; undefined rules and duplicates refused; every short text gives an answer; non-trivial: productions with switches, specifiers, alternatives or not-lines"
	base := lref.Grammar{Rules: []lref.Rule{{Name: "R", Const: "r"}, {Name: "R_S", Const: "s"}}}
	rls, err := rules.NewAdapter().Rules(base.RulesText(lref.Styles[1]), nil)
	if err != nil {
		r.Violate("rules", err.Error())
		r.Finish()
	}
	ad, err := tokens.NewAdapterBuilder().Create().WithRules(rls).Now()
	if err != nil {
		r.Violate("adapter", err.Error())
		r.Finish()
	}
	styles := []lref.Style{{Name: "compact"}, {Name: "spaced", Sep: "\n", Pad: " "}, {Name: "lines", Sep: "\n\n", Pad: "\n\t"}}
	readIn := func(id string, list []lref.Token, ad tokens.Adapter) {
		for _, st := range styles {
			st := st
			id := id + ":" + st.Name
			r.State(id)
			r.Case(id, func() {
				text := lref.TokensText(list, st)
				o, err := ad.ToTokens(text)
				r.Step(1)
				if err != nil {
					vlib.Failf("refused: %s\n%s", err, text)
				}
				if len(o.All()) != len(list) {
					vlib.Failf("%d tokens instead of %d\n%s", len(o.All()), len(list), text)
				}
				for i, t := range list {
					one := o.All()[i]
					f, err := o.Find(t.Name)
					if err != nil || f != one || one.Name() != t.Name {
						vlib.Failf("token %q is %q (%v)", t.Name, one.Name(), err)
					}
					verifyLines(t.Name+" must", one.Block().Must(), t.Must)
					if one.Block().HasNot() != (len(t.Not) > 0) {
						vlib.Failf("token %q has not-lines: %v\n%s", t.Name, one.Block().HasNot(), text)
					}
					if len(t.Not) > 0 {
						verifyLines(t.Name+" not", one.Block().Not(), t.Not)
					}
					if one.HasTestSuite() != (len(t.Suite) > 0) {
						vlib.Failf("token %q has a test suite: %v", t.Name, one.HasTestSuite())
					}
					if len(t.Suite) > 0 {
						ls := one.TestSuite().Lines()
						if len(ls) != len(t.Suite) {
							vlib.Failf("token %q has %d test lines instead of %d", t.Name, len(ls), len(t.Suite))
						}
						for k := range ls {
							if strings.TrimSpace(ls[k]) != strings.TrimSpace(t.Suite[k]) {
								vlib.Failf("test line %d is %q instead of %q", k, ls[k], t.Suite[k])
							}
						}
					}
				}
				r.Outcome(text)
			})
		}
	}
	read := func(id string, list []lref.Token) { readIn(id, list, ad) }
	// many tokens, lines, elements, specifiers and repetitions; long names
	for i, c := range lref.Large(r.Thorough()) {
		if len(c.G.Patterns) > 0 {
			continue
		}
		large, err := rules.NewAdapter().Rules(c.G.RulesText(lref.Styles[1]), nil)
		if err != nil {
			r.Violate(fmt.Sprintf("large:%d", i), err.Error())
			continue
		}
		lad, err := tokens.NewAdapterBuilder().Create().WithRules(large).Now()
		if err != nil {
			r.Violate(fmt.Sprintf("large:%d", i), err.Error())
			continue
		}
		r.Section("large", 1)
		readIn(fmt.Sprintf("large:%d", i), c.G.Tokens, lad)
		if len(c.G.Channels) > 0 {
			readIn(fmt.Sprintf("large channels:%d", i), c.G.Channels, lad)
		}
	}
	for _, n := range []int{2, 5, 9, 17, 33, 65} {
		list := []lref.Token{}
		for i := 0; i < n; i++ {
			t := lref.Token{Name: fmt.Sprintf("t%c%c", 'a'+i/26, 'a'+i%26), Must: [][]lref.Elem{{{Name: "R", Card: lref.Rg(i+1, n+1)}}}}
			for j := 0; j < n; j++ {
				if i%2 == 0 {
					t.Suite = append(t.Suite, fmt.Sprintf("text %d of %d", j, i))
				}
				if i%3 == 0 {
					t.Not = append(t.Not, []lref.Elem{{Name: "R_S", Card: lref.N(j + 1)}})
				}
			}
			list = append(list, t)
		}
		read(fmt.Sprintf("many:%d", n), list)
	}
	cards := []lref.Card{{Min: 1, Max: 1}, lref.Plus, lref.Star, lref.Opt, lref.N(2), lref.Rg(1, 2), lref.Rg(1, -1)}
	specs := [][]lref.Spec{nil, {{"x", lref.N(1)}}, {{"R_S", lref.Rg(0, 2)}}, {{"x", lref.Rg(2, -1)}, {"R", lref.N(3)}}}
	pool := []lref.Elem{{Switch: true}}
	for _, c := range cards {
		for _, n := range []string{"a", "bCd", "R", "R_S"} {
			e := lref.Elem{Name: n, Card: c}
			pool = append(pool, e)
			if !e.IsRule() {
				for _, s := range specs[1:] {
					e := e
					e.Specs = s
					pool = append(pool, e)
				}
			}
		}
	}
	small := []lref.Elem{{Switch: true}, {Name: "a", Card: cards[0]}, {Name: "R", Card: cards[0]}, {Name: "bCd", Card: lref.Opt}, {Name: "R_S", Card: lref.N(2)}, {Name: "a", Card: lref.Plus, Specs: specs[3]}}
	other := lref.Token{Name: "zOther", Must: [][]lref.Elem{{{Name: "R", Card: cards[0]}}}}
	// all sequences of two over the whole pool
	r.Parallel(len(pool), func(i int) {
		read(fmt.Sprintf("one:%d", i), []lref.Token{{Name: "t", Must: [][]lref.Elem{{pool[i]}}}, other})
		for j := range pool {
			read(fmt.Sprintf("two:%d:%d", i, j), []lref.Token{other, {Name: "tOk", Must: [][]lref.Elem{{pool[i], pool[j]}}}})
		}
	})
	// longer sequences, alternatives, not-lines, suites over the small pool
	seqs := [][]lref.Elem{}
	for n := 1; n <= r.Pick(3, 4); n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(small)
		}
		vlib.Product(dims, func(idx []int) {
			s := []lref.Elem{}
			for _, x := range idx {
				s = append(s, small[x])
			}
			seqs = append(seqs, s)
		})
	}
	short := seqs[:len(small)+len(small)*len(small)]
	suites := [][]string{nil, {"one"}, {"two words", "a|b"}, {"x y", "---", "z"}}
	_ = suites
	r.Parallel(len(seqs), func(i int) {
		for j := range short {
			r.Nontrivial()
			read(fmt.Sprintf("alt:%d:%d", i, j), []lref.Token{{Name: "t", Must: [][]lref.Elem{seqs[i], short[j]}}, other})
			if i < len(short) {
				read(fmt.Sprintf("not:%d:%d", i, j), []lref.Token{{Name: "t", Must: [][]lref.Elem{seqs[i]}, Not: [][]lref.Elem{short[j]}}, other})
				read(fmt.Sprintf("notalt:%d:%d", i, j), []lref.Token{{Name: "t", Must: [][]lref.Elem{short[j], seqs[i]}, Not: [][]lref.Elem{seqs[i], short[j]}, Suite: suites[1+j%2]}, other})
			}
		}
		for k, s := range suites {
			read(fmt.Sprintf("suite:%d:%d", i, k), []lref.Token{other, {Name: "t", Must: [][]lref.Elem{seqs[i]}, Suite: s}})
		}
	})
	for _, b := range []string{
		"t: UNKNOWN;", "t: a | UNKNOWN;", "t: a --- : UNKNOWN;", "t: R; t: R;", "t: R --- R;", "t: R +++ x;", "t: R | ;", "t: | R;", "t: ;", "", " ", "t", "t: R",
		"t: a -> UNKNOWN{1} <-;", "t: R{0};", "t: R{3,1};", "t: R{-1};", "t: R{x};", "t: a -> b{0} <-;", "t: R --- : ;", "t: R --- : | R;",
	} {
		b := b
		r.Case(fmt.Sprintf("refused:%q", b), func() {
			o, err := ad.ToTokens(b)
			r.Step(1)
			if err == nil {
				vlib.Failf("accepted with %d tokens", len(o.All()))
			}
		})
	}
	r.Case("refused:without-rules", func() {
		if _, err := tokens.NewAdapterBuilder().Create().Now(); err == nil {
			vlib.Failf("an adapter without rules is built")
		}
	})
	garbage := vlib.Strings([]string{"t", "R", ":", ";", "|", "---", "+++", "{1}", "->", "<-", "#", " ", "*"}, 0, r.Pick(4, 5))
	r.Parallel(64, func(w int) {
		for i := w; i < len(garbage); i += 64 {
			for _, t := range []string{garbage[i], "t:" + garbage[i] + ";"} {
				t := t
				r.Case(fmt.Sprintf("text:%q", t), func() {
					o, err := ad.ToTokens(t)
					r.Step(1)
					if (err == nil) != (o != nil) {
						vlib.Failf("error %v with an object: %v", err, o != nil)
					}
				})
			}
		}
	})
	r.Finish()
}
