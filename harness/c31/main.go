// C31: what is before and after the part of a text that is read.
package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// expected is what the reference reads: from the beginning or, with a legal prefix, from the first place where the root matches.
type expected struct {
	n      *lref.Node
	bad    *lref.Mistake
	at     int
	silent bool
}

func expect(ref *lref.Parser, root, s string, prefix bool) expected {
	first := expected{}
	for i := 0; i == 0 || i < len(s); i++ {
		n, bad := ref.Parse(root, s[i:])
		if ref.Partial || ref.Exhausted || ref.LeftRecursive && len(s[i:]) > 1 {
			return expected{silent: true}
		}
		if i == 0 {
			first = expected{n: n, bad: bad, silent: ref.LeftRecursive}
		}
		if bad == nil {
			return expected{n: n, at: i, silent: ref.LeftRecursive}
		}
		if !prefix {
			break
		}
	}
	return first
}

// around compares the input and the surroundings of every rule of a derivation with the text.
func around(t asts.Token, rest string) string {
	if !t.Match().HasMatches() {
		return rest
	}
	for _, m := range t.Match().Matches() {
		if m.IsRule() {
			res := m.Rule().Result()
			text := res.Discoveries().Content()
			if !strings.HasPrefix(rest, text) {
				vlib.Failf("rule %s read %q where %q is left", m.Rule().Rule(), text, rest)
			}
			if res.Input() != rest {
				vlib.Failf("the input of rule %s is %q instead of %q", m.Rule().Rule(), res.Input(), rest)
			}
			if res.HasPrefix() || res.Prefix() != "" {
				vlib.Failf("rule %s was read at %q, and has the prefix %q", m.Rule().Rule(), rest, res.Prefix())
			}
			rest = rest[len(text):]
			if res.HasSuffix() != (rest != "") || res.Suffix() != rest {
				vlib.Failf("what follows rule %s is %q (%v) instead of %q", m.Rule().Rule(), res.Suffix(), res.HasSuffix(), rest)
			}
			continue
		}
		for _, x := range m.Token().Matches() {
			rest = around(x, rest)
		}
	}
	return rest
}

func content(s string, prefix, suffix bool) contents.Content {
	b := contents.NewBuilder().Create().WithContent(s)
	if prefix {
		b.IsPrefixLegal()
	}
	if suffix {
		b.IsSuffixLegal()
	}
	c, err := b.Now()
	if err != nil {
		vlib.Failf("content: %s", err)
	}
	return c
}

func main() {
	r := vlib.New("C31")
	r.Rule = "every grammar of the families x every text over its alphabet up to the depth: with a legal prefix, the adapter (fresh, and again after all other texts) and, for every text of some grammars, the application give the derivation of the first place of the text where the reference interpreter reads the root, or its mistake at the beginning; without, those of the beginning; in every derivation the input of each rule is what was left of the text, its suffix what is left after it; non-trivial: texts that are read after a prefix"
	cases := lref.Families(r.Thorough())
	cases = append(cases, lref.SpelledAndNamed(cases, 1, lref.Spellings)...)
	silent := make([]int64, len(cases))
	r.Parallel(len(cases), func(i int) {
		if r.Expired("grammars") {
			return
		}
		c := cases[i]
		text := lref.TokensText(c.G.Tokens, ldrive.Style)
		id := fmt.Sprintf("%s:%d", c.Section, i)
		r.State(id)
		ref := &lref.Parser{G: c.G}
		r.Case(id, func() {
			rules := ldrive.Rules(c.G)
			b := ldrive.Builder(rules, c.G, c.Root)
			ad, err := b.Now()
			if err != nil {
				vlib.Failf("adapter: %s", err)
			}
			after, err := b.CanContainPrefix().Now()
			if err != nil {
				vlib.Failf("adapter: %s", err)
			}
			single := ldrive.Single(c.G, c.Root)
			app := ldrive.App()
			texts, wants := []string{}, []string{}
			for _, s := range c.Scripts {
				if len(s) > 48 {
					// a text is read from each of its places
					silent[i]++
					continue
				}
				e := expect(ref, c.Root, s, true)
				if e.silent {
					silent[i]++
					continue
				}
				show := func(e expected, got asts.AST, err error, what string) string {
					if err != nil {
						vlib.FailKey(fmt.Sprintf("%s on %q", text, s), "%s: error on %q: %s\n%s", what, s, err, text)
					}
					want := ""
					if e.bad != nil {
						want = "mistake " + e.bad.Key()
					} else {
						want = fmt.Sprintf("%s %q", e.n, e.n.Text)
					}
					g := ldrive.Result(got)
					if e.bad != nil && !got.IsSuccess() {
						// C20 looks at what a mistake tells
						g, want = "mistake", "mistake"
					}
					if g != want {
						vlib.FailKey(fmt.Sprintf("%s on %q", text, s), "%s: %s text %q\n got  %s\n want %s (at %d)\nchannels: %s", what, text, s, g, want, e.at, lref.TokensText(c.G.Channels, ldrive.Style))
					}
					if got.IsSuccess() {
						around(got.Success(), s[e.at:])
					}
					r.Step(1)
					return g
				}
				got, err := after.ToAST(s)
				want := show(e, got, err, "with a legal prefix")
				r.Outcome(want)
				texts, wants = append(texts, s), append(wants, want)
				begin := expect(ref, c.Root, s, false)
				if i%4 == 0 || r.Thorough() {
					got, err = ad.ToAST(s)
					show(begin, got, err, "without")
				}
				if i%16 == 0 && s != "" {
					for flags := 0; flags < 4; flags++ {
						x := begin
						if flags&1 != 0 {
							x = e
						}
						got, err := app.AST(single, content(s, flags&1 != 0, flags&2 != 0))
						show(x, got, err, fmt.Sprintf("application, flags %d", flags))
					}
				}
				if e.bad == nil && e.at > 0 {
					r.Nontrivial()
				}
			}
			for x, s := range texts {
				got, err := after.ToAST(s)
				if err != nil {
					vlib.Failf("again: error on %q: %s", s, err)
				}
				g := ldrive.Result(got)
				if strings.HasPrefix(g, "mistake") {
					g = "mistake"
				}
				if g != wants[x] {
					vlib.Failf("%s text %q is read another way after other texts\n got  %s\n want %s", text, s, g, wants[x])
				}
				r.Step(1)
			}
		})
		r.Section(c.Section, int64(len(c.Scripts)))
	})
	total := int64(0)
	for _, n := range silent {
		total += n
	}
	r.Section("not compared (left recursion, partial patterns, long texts)", total)
	r.Finish()
}
