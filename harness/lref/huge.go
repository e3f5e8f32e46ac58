package lref

import "strings"

// huge enumerates grammars of which one part is repeated a great many times.
func huge(deep bool) []Case {
	out := []Case{}
	sizes := []int{65, 100, 101, 129, 256, 257}
	if deep {
		sizes = append(sizes, 63, 64, 66, 127, 128, 200, 255, 258, 300, 400, 513)
	}
	rules := []Rule{{Name: "A", Const: "a"}, {Name: "B", Const: "b"}, {Name: "S", Const: " "}}
	for _, n := range sizes {
		texts := []string{}
		for k := n - 1; k <= n+1; k++ {
			texts = append(texts, strings.Repeat("a", k), strings.Repeat("a", k)+"b", strings.Repeat("a", k)+"c")
		}
		add := func(scripts []string, tokens ...Token) {
			out = append(out, Case{"large", Grammar{Rules: rules, Tokens: tokens}, "x", scripts})
		}
		for _, cd := range []Card{Plus, Star, N(n), Rg(n, -1), Rg(1, n)} {
			add(texts, Token{Name: "x", Must: [][]Elem{{E("A", cd), E("B", Opt)}}})
			add(texts, Token{Name: "x", Must: [][]Elem{{E("y", cd), E("B", Opt)}}}, Token{Name: "y", Must: [][]Elem{{E("A", One)}}})
			add(texts, Token{Name: "x", Must: [][]Elem{{E("A", Plus), E("B", Opt)}}, Not: [][]Elem{{E("A", cd), E("B", One)}}})
			add(texts, Token{Name: "x", Must: [][]Elem{{{Name: "y", Card: One, Specs: []Spec{{"A", Rg(n, -1)}}}}}}, Token{Name: "y", Must: [][]Elem{{E("A", cd), E("B", Opt)}}})
		}
		// a line of n elements, and n lines
		line, lines := []Elem{}, [][]Elem{}
		for i := 0; i < n; i++ {
			line = append(line, E([]string{"A", "B"}[i%2], One))
			lines = append(lines, []Elem{E("B", N(n-i))})
		}
		full := strings.Repeat("ab", n)[:n]
		add([]string{full, full[:n-1], full[:n-2] + "c", full + "b", full[1:]}, Token{Name: "x", Must: [][]Elem{append(line[:n:n], E("B", Opt))}})
		if n <= 129 || deep {
			b := strings.Repeat("b", n)
			add([]string{b, b + "a", b[1:], "b", "bba", "a"}, Token{Name: "x", Must: lines})
		}
		// what is between them
		spaced := []string{strings.Repeat("a ", n), strings.Repeat("a", n) + " b", strings.Repeat(" ", n) + "a", strings.Repeat("a ", n) + "b"}
		out = append(out, Case{"large", Grammar{Rules: rules, Tokens: []Token{{Name: "x", Must: [][]Elem{{E("A", Plus), E("B", Opt)}}}}, Channels: []Token{{Name: "blank", Must: [][]Elem{{E("S", Plus)}}}}}, "x", spaced})
	}
	// long texts
	long := []int{511, 512, 513, 1024, 1025, 4097}
	for _, n := range long {
		texts := []string{}
		for _, end := range []string{"", "b", "ba", "bb"} {
			texts = append(texts, strings.Repeat("a", n)+end)
		}
		for _, cd := range []Card{Plus, N(n), Rg(n+1, -1)} {
			out = append(out, Case{"large", Grammar{Rules: rules, Tokens: []Token{{Name: "x", Must: [][]Elem{{E("A", cd), E("B", Opt)}}}}}, "x", texts})
		}
		long := append(rules[:3:3], Rule{Name: "LONG", Const: texts[0]})
		out = append(out, Case{"large", Grammar{Rules: long, Tokens: []Token{{Name: "x", Must: [][]Elem{{E("LONG", Opt), E("A", Opt), E("B", Opt)}}}}}, "x", append([]string{texts[0][1:], texts[0] + "ab", "a" + texts[0], texts[0][1:] + "b" + texts[0]}, texts...)})
	}
	return out
}
