package lref

import (
	"fmt"
	"strings"
)

// Changed lists a text and the texts near it: a byte dropped, changed or added, at every position.
func Changed(text string, others ...string) []string {
	out := []string{text}
	seen := map[string]bool{text: true}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for i := 0; i <= len(text); i++ {
		add(text[:i])
		if i < len(text) {
			add(text[:i] + text[i+1:])
		}
		for _, o := range others {
			add(text[:i] + o + text[i:])
			if i < len(text) {
				add(text[:i] + o + text[i+1:])
			}
		}
	}
	return out
}

// number i of a list, in letters
func letters(i int) string { return string(rune('a'+i/26)) + string(rune('a'+i%26)) }

// Large enumerates grammars with many items of each kind.
func Large(deep bool) []Case {
	out := []Case{}
	sizes := []int{4, 5, 8, 9, 10, 11, 12, 16, 17, 20, 33}
	if deep {
		sizes = nil
		for n := 4; n <= 40; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 63, 64, 65, 66)
	}
	join := func(lo, hi int, sep string) string {
		l := []string{}
		for i := lo; i < hi; i++ {
			l = append(l, letters(i))
		}
		return strings.Join(l, sep)
	}
	for _, n := range sizes {
		rules := []Rule{}
		for i := 0; i < n; i++ {
			rules = append(rules, Rule{Name: strings.ToUpper("R" + letters(i)), Const: letters(i)})
		}
		rules = append(rules, Rule{Name: "A", Const: "a"}, Rule{Name: "B", Const: "b"}, Rule{Name: "Z", Const: "zz"}, Rule{Name: "S", Const: " "})
		r := func(i int) Elem { return E(rules[i].Name, One) }
		add := func(g Grammar, root string, scripts []string) {
			if g.Rules == nil {
				g.Rules = rules
			}
			out = append(out, Case{"large", g, root, scripts})
		}
		all := []Elem{}
		lines := [][]Elem{}
		for i := 0; i < n; i++ {
			all = append(all, r(i))
			lines = append(lines, []Elem{r(i)})
		}
		full := join(0, n, "")
		near := Changed(full, "z", " ")
		each := []string{"", "zz", "z"}
		for i := 0; i < n; i++ {
			each = append(each, letters(i), letters(i)+"z", letters(i)+letters((i+1)%n))
		}

		// a line of n elements, and with an optional tail
		add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{all}}}}, "x", near)
		add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{append(append([]Elem{}, all...), E("Z", Opt))}}}}, "x", append(near, full+"zz", full+"zzz"))
		// n lines
		add(Grammar{Tokens: []Token{{Name: "x", Must: lines}}}, "x", each)
		// n lines, repeated
		add(Grammar{Tokens: []Token{{Name: "w", Must: [][]Elem{{E("x", Plus)}}}, {Name: "x", Must: lines}}}, "w", near)
		add(Grammar{Tokens: []Token{{Name: "w", Must: [][]Elem{{E("x", N(n))}}}, {Name: "x", Must: lines}}}, "w", append(near, full+letters(0)))
		add(Grammar{Tokens: []Token{{Name: "w", Must: [][]Elem{{E("x", Rg(n, -1))}}}, {Name: "x", Must: lines}}}, "w", append(near, full+letters(0)))
		// a line of which one part of many is missing
		for _, cd := range []Card{Plus, Star, N(n), Rg(n, -1), Rg(1, n), Rg(n-1, n)} {
			texts := []string{}
			for k := 0; k <= n+2; k++ {
				texts = append(texts, strings.Repeat("a", k), strings.Repeat("a", k)+"b", strings.Repeat("a", k)+"bb")
			}
			add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{{E("A", cd), E("B", Opt)}}}}}, "x", texts)
			add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{{E("y", cd), E("B", Opt)}}}, {Name: "y", Must: [][]Elem{{E("A", One)}}}}}, "x", texts)
			// not so many
			add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{{E("A", Plus), E("B", Opt)}}, Not: [][]Elem{{E("A", cd), E("B", One)}}}}}, "x", texts)
			// channels between the many
			spaced := []string{}
			for k := n - 2; k <= n+1; k++ {
				spaced = append(spaced, strings.TrimSpace(strings.Repeat("a ", k)), strings.Repeat("a ", k)+"b", strings.Repeat("a  ", k)+"b", strings.Repeat(" a", k), strings.Repeat("a", k)+strings.Repeat(" ", k)+"b")
			}
			add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{{E("A", cd), E("B", Opt)}}}}, Channels: []Token{{Name: "blank", Must: [][]Elem{{E("S", One)}}}}}, "x", spaced)
		}
		// a chain of n tokens
		chain := []Token{}
		for i := 0; i < n; i++ {
			l := []Elem{r(i)}
			if i+1 < n {
				l = append(l, E(fmt.Sprintf("t%s", letters(i+1)), One))
			}
			chain = append(chain, Token{Name: "t" + letters(i), Must: [][]Elem{l}})
		}
		add(Grammar{Tokens: chain}, "taa", near)
		// a nesting of n levels
		nest := []string{}
		for _, d := range []int{0, 1, n - 1, n, n + 1} {
			nest = append(nest, Changed(strings.Repeat("a", d)+"zz"+strings.Repeat("b", d), "z")...)
			if !deep && d > 10 {
				break
			}
		}
		add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{{E("A", One), E("x", One), E("B", One)}, {E("Z", One)}}}}}, "x", nest)
		// a recursive token behind n others, and before them
		fillers := []Token{}
		for i := 0; i < n; i++ {
			fillers = append(fillers, Token{Name: "f" + letters(i), Must: [][]Elem{{r(i)}}})
		}
		w := Token{Name: "w", Must: [][]Elem{{E("A", One), E("w", One), E("B", One)}, {E("Z", One)}}}
		x := Token{Name: "x", Must: [][]Elem{{E("w", One), E("f"+letters(n-1), Opt)}}}
		wtexts := []string{"zz", "azzb", "aazzbb", "aazzb", "zz" + letters(n-1), "azzb" + letters(n-1), "azzb" + letters(n-2), "zzz"}
		add(Grammar{Tokens: append(append([]Token{x}, fillers...), w)}, "x", wtexts)
		add(Grammar{Tokens: append(append([]Token{w}, fillers...), x)}, "x", wtexts)
		// n tokens that refer to each other in a circle
		circle := []Token{}
		for i := 0; i < n; i++ {
			circle = append(circle, Token{Name: "t" + letters(i), Must: [][]Elem{{E("A", One), E("t"+letters((i+1)%n), One)}, {r(i), E("Z", One)}}})
		}
		ctexts := []string{}
		for _, k := range []int{0, 1, n - 1, n, n + 1} {
			for _, end := range []string{letters(k%n) + "zz", letters((k+1)%n) + "zz", "zz"} {
				ctexts = append(ctexts, strings.Repeat("a", k)+end)
			}
		}
		add(Grammar{Tokens: circle}, "taa", ctexts)
		add(Grammar{Tokens: append([]Token{{Name: "x", Must: [][]Elem{{E("t"+letters(n/2), One)}}}}, circle...)}, "x", ctexts)
		// n excluded lines
		add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{{E("y", One), E("Z", Opt)}}, Not: lines}, {Name: "y", Must: append([][]Elem{{E("S", One)}}, lines...)}}}, "x", append(each, " ", " zz"))
		add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{{E("y", One)}}, Not: lines[:n-1]}, {Name: "y", Must: lines}}}, "x", each)
		// n channels
		chs := []Token{}
		for i := 0; i < n; i++ {
			chs = append(chs, Token{Name: "c" + letters(i), Must: [][]Elem{{r(i)}}})
		}
		tchan := []string{"zzzz", "zz", "zz zz"}
		for i := 0; i < n; i++ {
			tchan = append(tchan, "zz"+letters(i)+"zz", letters(i)+"zz"+letters(n-1-i)+"zz", "zz"+letters(i)+letters((i+1)%n)+"zz", "zz"+letters(i)+"zz"+letters(i))
		}
		add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{{E("Z", One), E("Z", One)}}}}, Channels: chs}, "x", tchan)
		add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{{E("Z", One), SW, E("Z", One)}}}}, Channels: chs}, "x", tchan)
		// n switches
		sw := []Elem{}
		for i := 0; i < n; i++ {
			sw = append(sw, SW, E("A", One))
		}
		stexts := Changed(strings.Repeat("a", n), " ")
		add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{sw}}}, Channels: []Token{{Name: "blank", Must: [][]Elem{{E("S", One)}}}}}, "x", stexts)
		// n specifiers
		specs := []Spec{}
		for i := 0; i < n; i++ {
			specs = append(specs, Spec{rules[i].Name, Rg(0, 1)})
		}
		two := []string{full}
		for i := 0; i < n; i++ {
			two = append(two, join(0, i+1, "")+join(i, n, ""), letters(i), letters(i)+letters(i))
		}
		stars := []Elem{}
		for i := 0; i < n; i++ {
			stars = append(stars, E(rules[i].Name, Star))
		}
		add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{{{Name: "y", Card: One, Specs: specs}}}}, {Name: "y", Must: [][]Elem{stars}}}}, "x", two)
		// the amount of a specifier is n
		for _, cd := range []Card{N(n), Rg(n, -1), Rg(1, n)} {
			texts := []string{}
			for k := 0; k <= n+2; k++ {
				texts = append(texts, strings.Repeat("a", k), strings.Repeat("a", k)+"b")
			}
			add(Grammar{Tokens: []Token{{Name: "x", Must: [][]Elem{{{Name: "y", Card: One, Specs: []Spec{{"A", cd}}}}}}, {Name: "y", Must: [][]Elem{{E("A", Plus), E("B", Opt)}}}}}, "x", texts)
		}
		// a constant of 2n bytes, and a longer one that starts with it
		long := []Rule{{Name: "LONG", Const: full}, {Name: "LONGER", Const: full + "!"}, {Name: "Z", Const: "zz"}}
		add(Grammar{Rules: long, Tokens: []Token{{Name: "x", Must: [][]Elem{{E("LONG", One), E("Z", Opt)}}}}}, "x", append(near, full+"zz", full+full))
		add(Grammar{Rules: long, Tokens: []Token{{Name: "x", Must: [][]Elem{{E("LONGER", One)}, {E("LONG", One)}}}}}, "x", append(near, full+"!"))
		add(Grammar{Rules: long, Tokens: []Token{{Name: "x", Must: [][]Elem{{E("LONG", One)}, {E("LONGER", One)}}}}}, "x", append(near, full+"!"))
		// names of n letters, that differ in the last one
		na, nb := strings.Repeat("n", n)+"a", strings.Repeat("n", n)+"b"
		named := []Rule{{Name: strings.ToUpper(na), Const: "a"}, {Name: strings.ToUpper(nb), Const: "b"}}
		add(Grammar{Rules: named, Tokens: []Token{{Name: "x", Must: [][]Elem{{E(na, One), E(nb, Opt)}}}, {Name: na, Must: [][]Elem{{E(strings.ToUpper(na), One)}}}, {Name: nb, Must: [][]Elem{{E(strings.ToUpper(nb), Plus)}}}}}, "x", Words([]string{"a", "b"}, 0, 4))

		// patterns: n options, n groups of a serie, n choices, n patterns of a rule
		opts, groups, series, choices, pats := []string{}, []Group{}, []Serie{}, []Choice{}, []Pattern{}
		gnames, pnames := []string{}, []string{}
		for i := 0; i < n; i++ {
			u := strings.ToUpper(letters(i))
			opts = append(opts, letters(i))
			groups = append(groups, Group{"G" + u, []string{letters(i)}})
			gnames = append(gnames, "G"+u)
			series = append(series, Serie{"S" + u, []string{"G" + u}})
			choices = append(choices, Choice{"S" + u, false})
			pats = append(pats, Pattern{"p" + letters(i), []Choice{{"S" + u, false}}})
			pnames = append(pnames, "p"+letters(i))
		}
		pg := func(groups []Group, series []Serie, pats []Pattern, rule Rule, scripts []string) {
			add(Grammar{Groups: groups, Series: series, Patterns: pats, Rules: []Rule{rule, {Name: "Z", Const: "zz"}}, Tokens: []Token{{Name: "x", Must: [][]Elem{{E(rule.Name, One), E("Z", Opt)}}}}}, "x", scripts)
		}
		for _, cd := range []Card{N(1), Plus, N(n)} {
			pg([]Group{{"G", opts}}, []Serie{{"S", []string{"G"}}}, []Pattern{{"p", []Choice{{"S", false}}}}, Rule{Name: "X", Pats: []string{"p"}, Card: cd}, append(append(each, near...), full+"zz"))
			pg(groups, series, pats, Rule{Name: "X", Pats: pnames, Card: cd}, append(append(each, near...), full+"zz"))
		}
		pg(groups, []Serie{{"S", gnames}}, []Pattern{{"p", []Choice{{"S", false}}}}, Rule{Name: "X", Pats: []string{"p"}, Card: N(1)}, append(near, full+"zz"))
		pg(groups, series, []Pattern{{"p", choices}}, Rule{Name: "X", Pats: []string{"p"}, Card: N(1)}, append(append(near, each...), full+"zz"))
	}
	return append(out, huge(deep)...)
}
