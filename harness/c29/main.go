// C29: reading any text with any grammar ends, and what is read is a derivation of the grammar.
package main

import (
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// sound tells what is wrong with a derivation.
func sound(g lref.Grammar, n *lref.Node) string {
	t := g.Token(n.Token)
	if n.Line < 0 || n.Line >= len(t.Must) {
		return fmt.Sprintf("%s has no line %d", n.Token, n.Line)
	}
	text, at := "", 0
	for _, e := range t.Must[n.Line] {
		amount := 0
		if at < len(n.Items) && n.Items[at].Name == e.Name && n.Items[at].Rule == e.IsRule() {
			it := n.Items[at]
			at++
			if it.Rule {
				c := g.Rule(e.Name).Const
				if c == "" || strings.Replace(it.Text, c, "", -1) != "" {
					return fmt.Sprintf("%s reads %q", e.Name, it.Text)
				}
				amount = len(it.Text) / len(c)
				text += it.Text
			}
			for _, x := range it.Nodes {
				if x.Token != e.Name {
					return fmt.Sprintf("%s stands for %s", x.Token, e.Name)
				}
				if bad := sound(g, x); bad != "" {
					return bad
				}
				text += x.Text
			}
			if !it.Rule {
				amount = len(it.Nodes)
			}
		}
		if !e.Card.Has(amount) {
			return fmt.Sprintf("%s%s is there %d times in %s", e.Name, e.Card.Text, amount, n)
		}
	}
	if at != len(n.Items) {
		return fmt.Sprintf("%s holds more than its line", n)
	}
	if text != n.Text {
		return fmt.Sprintf("%s has the text %q", n, n.Text)
	}
	return ""
}

type gcase struct {
	section string
	g       lref.Grammar
	scripts []string
}

var constants = []lref.Rule{{Name: "A", Const: "a"}, {Name: "B", Const: "b"}}

func tok(name string, must ...[]lref.Elem) lref.Token { return lref.Token{Name: name, Must: must} }

// families enumerates every grammar of a few small shapes, those that go round in circles included.
func families(deep bool) []gcase {
	out := []gcase{}
	add := func(section string, scripts []string, channels []lref.Token, tokens ...lref.Token) {
		out = append(out, gcase{section, lref.Grammar{Rules: constants, Tokens: tokens, Channels: channels}, scripts})
	}
	elems := func(names []string, cards ...lref.Card) []lref.Elem {
		pool := []lref.Elem{}
		for _, n := range names {
			for _, c := range cards {
				pool = append(pool, lref.E(n, c))
			}
		}
		return pool
	}
	short := []string{"", "a", "aa", "aaa", "b", "ab", "ba"}
	if deep {
		short = append(short, "aaaa", "aab", "aba", "bab")
	}

	// two tokens of one line, that refer to each other and to themselves in every way
	cards := []lref.Card{lref.One, lref.Opt, lref.Star, lref.Plus}
	if deep {
		cards = append(cards, lref.N(2), lref.Rg(0, 2))
	}
	pool := lref.Sequences(elems([]string{"A", "root", "sub"}, cards...), 2)
	for _, l := range pool {
		if !lref.Uses([][]lref.Elem{l}, "sub") {
			add("one line", short, nil, tok("root", l))
			continue
		}
		for _, m := range pool {
			add("one line", short, nil, tok("root", l), tok("sub", m))
		}
	}

	// alternatives
	some := []lref.Card{lref.One, lref.Star}
	if deep {
		some = append(some, lref.Opt, lref.Plus)
	}
	two := lref.Sequences(elems([]string{"A", "root", "sub"}, some...), 2)
	ends := [][]lref.Elem{{lref.E("A", lref.One)}, {lref.E("B", lref.Opt), lref.E("root", lref.One)}, {lref.E("A", lref.One), lref.E("sub", lref.Opt)}, {lref.E("root", lref.Star), lref.E("B", lref.One)}}
	for _, l := range two {
		for _, m := range two {
			for _, end := range ends {
				add("alternatives", short, nil, tok("root", l, m), tok("sub", end))
				add("alternatives", short, nil, tok("root", l, end), tok("sub", m, []lref.Elem{lref.E("B", lref.One)}))
			}
		}
	}

	// three tokens in circles
	three := lref.Sequences(elems([]string{"A", "root", "sub", "leaf"}, lref.One), 2)
	if deep {
		three = append(three, lref.Sequences(elems([]string{"A", "root", "sub", "leaf"}, lref.Opt), 2)...)
	}
	for _, l := range three {
		for _, m := range three {
			for _, n := range three {
				add("circles", []string{"", "a", "aa", "ab"}, nil, tok("root", l), tok("sub", m, []lref.Elem{lref.E("B", lref.One)}), tok("leaf", n, []lref.Elem{lref.E("A", lref.One)}))
			}
		}
	}

	// excluded lines that refer to the token itself
	for _, l := range two {
		for _, m := range two {
			t := tok("root", l, []lref.Elem{lref.E("B", lref.One)})
			t.Not = [][]lref.Elem{m}
			add("excluded", short, nil, t, tok("sub", []lref.Elem{lref.E("A", lref.One), lref.E("sub", lref.Opt)}, []lref.Elem{lref.E("B", lref.One), lref.E("root", lref.One)}))
		}
	}

	// channels that refer to the tokens that they are skipped in, that may be empty, or that read what the grammar reads
	chans := lref.Sequences(elems([]string{"A", "C", "sub", "root"}, lref.One, lref.Opt, lref.Star), 2)
	rules := append([]lref.Rule{{Name: "C", Const: "c"}}, constants...)
	texts := []string{"", "a", "c", "ca", "ac", "acca", "aca", "ccab", "cc"}
	mains := [][][]lref.Elem{
		{{lref.E("A", lref.Plus)}}, {{lref.E("A", lref.One), lref.E("B", lref.Opt)}}, {{lref.E("sub", lref.Star), lref.E("A", lref.One)}}, {{lref.E("A", lref.One), lref.E("root", lref.Opt)}},
	}
	for _, c := range chans {
		for _, gap := range [][]lref.Elem{{lref.E("C", lref.One)}, {lref.E("C", lref.Star), lref.E("sub", lref.Opt)}} {
			for _, m := range mains {
				out = append(out, gcase{"channels", lref.Grammar{Rules: rules, Tokens: []lref.Token{tok("root", m...), tok("sub", []lref.Elem{lref.E("B", lref.One)}, []lref.Elem{lref.E("A", lref.One), lref.E("B", lref.One)})}, Channels: []lref.Token{tok("skip", c), tok("gap", gap)}}, texts})
			}
		}
	}
	return out
}

func main() {
	r := vlib.New("C29")
	r.Rule = "every grammar of two tokens of one line of up to two elements (the tokens themselves, in every cardinality), with alternatives, with excluded lines, of three tokens in circles, and with channels that refer to these tokens or may be empty, x every text of a few letters, read by the real lexer: the read ends with a derivation, a mistake or an error; every derivation is checked against the grammar, and compared with the reference where no token has to begin with itself; non-trivial: grammars in which one does"
	cases := families(r.Thorough())
	var silent, refused, errs int64
	r.Parallel(len(cases), func(i int) {
		if i%64 == 0 && r.Expired("grammars") {
			return
		}
		c := cases[i]
		g := c.g
		text := lref.TokensText(g.Tokens, ldrive.Style)
		id := fmt.Sprintf("%s:%d", c.section, i)
		r.State(id)
		r.Section(c.section, 1)
		r.Case(id, func() {
			rls := ldrive.Rules(g)
			toks := ldrive.Tokens(rls, g.Tokens)
			root, err := toks.Find("root")
			if err != nil {
				vlib.Failf("%s", err)
			}
			b := asts.NewAdapterBuilder().Create().WithRoot(root).WithTokens(toks)
			if len(g.Channels) > 0 {
				b.WithChannels(ldrive.Tokens(rls, g.Channels))
			}
			ad, err := b.Now()
			if (ad == nil) == (err == nil) {
				vlib.Failf("%s is neither resolved nor refused: %v", text, err)
			}
			if err != nil {
				if !alone(g) {
					vlib.Failf("%s is refused: %s", text, err)
				}
				atomic.AddInt64(&refused, 1)
				return
			}
			ref := &lref.Parser{G: g}
			circles := false
			for _, s := range c.scripts {
				n, bad := ref.Parse("root", s)
				ast, err := ad.ToAST(s)
				r.Step(1)
				if (ast == nil) == (err == nil) {
					vlib.Failf("%s on %q: neither read nor refused: %v", text, s, err)
				}
				if err != nil {
					if !ref.LeftRecursive && !ref.Exhausted && !begins(g) {
						vlib.Failf("%s on %q: %s", text, s, err)
					}
					atomic.AddInt64(&errs, 1)
					continue
				}
				if ast.IsSuccess() == ast.IsMistake() {
					vlib.Failf("%s on %q: success=%v mistake=%v", text, s, ast.IsSuccess(), ast.IsMistake())
				}
				got := "refused"
				if ast.IsSuccess() {
					m := ldrive.Node(ast.Success())
					if bad := sound(g, m); bad != "" && len(g.Channels) == 0 {
						vlib.Failf("%s on %q: %s", text, s, bad)
					}
					if m.Token != "root" {
						vlib.Failf("%s on %q: reads a %s", text, s, m.Token)
					}
					if len(g.Channels) == 0 && !strings.HasPrefix(s, m.Text) {
						vlib.Failf("%s on %q: reads %q", text, s, m.Text)
					}
					got = m.String()
				} else {
					ldrive.Mistake(ast.Mistake())
				}
				if ref.LeftRecursive || ref.Exhausted {
					circles = true
					atomic.AddInt64(&silent, 1)
					continue
				}
				want := "refused"
				if bad == nil {
					want = n.String()
				}
				if got != want {
					vlib.Failf("%s on %q: %s instead of %s", text, s, got, want)
				}
				r.Outcome(want)
			}
			if circles {
				r.Nontrivial()
			}
		})
	})
	r.Section("texts not compared (a token begins with itself)", silent)
	r.Section("grammars refused", refused)
	r.Section("texts refused with an error", errs)
	r.Finish()
}

// alone tells that a line consists of nothing but its own token.
func alone(g lref.Grammar) bool {
	for _, t := range append(append([]lref.Token{}, g.Tokens...), g.Channels...) {
		for _, lines := range [][][]lref.Elem{t.Must, t.Not} {
			for _, l := range lines {
				if len(l) == 1 && l[0].Name == t.Name {
					return true
				}
			}
		}
	}
	return false
}

// begins tells that a token begins with itself, directly or through the first elements of other ones.
func begins(g lref.Grammar) bool {
	firsts := map[string]map[string]bool{}
	for _, t := range g.Tokens {
		firsts[t.Name] = map[string]bool{}
		for _, l := range t.Must {
			firsts[t.Name][l[0].Name] = true
		}
	}
	for range g.Tokens {
		for _, f := range firsts {
			for n := range f {
				for m := range firsts[n] {
					f[m] = true
				}
			}
		}
	}
	for n, f := range firsts {
		if f[n] {
			return true
		}
	}
	return false
}
