package lref

// Case is a grammar with the texts to parse.
type Case struct {
	Section string
	G       Grammar
	Root    string
	Scripts []string
}

// E is an element
func E(name string, c Card) Elem { return Elem{Name: name, Card: c} }

// SW is a switch of channels
var SW = Elem{Switch: true}

// Words over an alphabet, of lo to hi letters.
func Words(alphabet []string, lo, hi int) []string {
	out := []string{}
	level := []string{""}
	for l := 0; l <= hi; l++ {
		if l >= lo {
			out = append(out, level...)
		}
		next := []string{}
		for _, w := range level {
			for _, a := range alphabet {
				next = append(next, w+a)
			}
		}
		level = next
	}
	return out
}

// Constants is a set of rules: one constant letter each.
var Constants = []Rule{{Name: "A", Const: "a"}, {Name: "B", Const: "b"}, {Name: "C", Const: "c"}}

// Sequences: lines of up to n elements over a pool.
func Sequences(pool []Elem, n int) [][]Elem {
	out := [][]Elem{}
	level := [][]Elem{{}}
	for l := 1; l <= n; l++ {
		next := [][]Elem{}
		for _, w := range level {
			for _, e := range pool {
				next = append(next, append(append([]Elem{}, w...), e))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func Uses(lines [][]Elem, name string) bool {
	for _, l := range lines {
		for _, e := range l {
			if e.Name == name {
				return true
			}
		}
	}
	return false
}

// Families enumerates grammars with texts. deep selects larger bounds.
func Families(deep bool) []Case {
	out := []Case{}
	pick := func(q, t int) int {
		if deep {
			return t
		}
		return q
	}
	ab := Words([]string{"a", "b"}, 0, pick(4, 6))
	abc := Words([]string{"a", "b", "c"}, 0, pick(4, 5))
	add := func(section string, tokens []Token, channels []Token, scripts []string) {
		out = append(out, Case{section, Grammar{Rules: Constants, Tokens: tokens, Channels: channels}, tokens[0].Name, scripts})
	}
	a, b, c := E("A", One), E("B", One), E("C", One)
	y := func(c Card) Elem { return E("y", c) }
	x := func(c Card) Elem { return E("x", c) }

	// one line
	pool := []Elem{}
	cards := []Card{One, Opt, Plus, Star, N(2), Rg(1, 2)}
	for _, n := range []string{"A", "B", "y"} {
		for _, cd := range cards {
			pool = append(pool, E(n, cd))
		}
	}
	ys := [][][]Elem{{{a, b}}, {{E("B", Opt), a}}, {{a}, {b}}, {{a}, {a, b}}, {{E("A", Plus)}}}
	depth := pick(2, 3)
	for _, l := range Sequences(pool, depth) {
		lines := [][]Elem{l}
		if !Uses(lines, "y") {
			add("line", []Token{{Name: "x", Must: lines}}, nil, ab)
			continue
		}
		for _, yl := range ys {
			add("line", []Token{{Name: "x", Must: lines}, {Name: "y", Must: yl}}, nil, ab)
		}
	}
	if !deep {
		small := []Elem{a, E("A", Opt), E("B", Star), E("A", Plus), y(One), y(Opt), y(Star)}
		for _, l := range Sequences(small, 3) {
			if len(l) < 3 {
				continue
			}
			add("line", []Token{{Name: "x", Must: [][]Elem{l}}, {Name: "y", Must: ys[3]}}, nil, ab)
		}
	}

	// alternatives
	alt := [][]Elem{{a}, {b}, {a, b}, {b, a}, {a, a}, {E("A", Plus)}, {E("A", Opt), b}, {E("A", Star), E("B", Opt), a}, {y(One)}, {y(One), a}, {a, y(Opt)}, {E("A", Opt)}}
	for i := range alt {
		for j := range alt {
			add("alternatives", []Token{{Name: "x", Must: [][]Elem{alt[i], alt[j]}}, {Name: "y", Must: ys[3]}}, nil, ab)
			for k := range alt {
				if !deep && (i+j+k)%3 != 0 {
					continue
				}
				add("alternatives", []Token{{Name: "x", Must: [][]Elem{alt[i], alt[j], alt[k]}}, {Name: "y", Must: ys[0]}}, nil, ab)
			}
		}
	}

	// excluded lines, alone and repeated
	nots := [][]Elem{{a}, {a, b}, {E("A", N(2))}, {b, E("A", Opt)}, {E("A", Opt), E("B", N(2))}, {y(One), b}, {c}}
	musts := [][][]Elem{{{E("A", Plus)}}, {{a}, {b}}, {{a, b}, {b}}, {{E("A", Star), E("B", Star)}}, {{c}}}
	for _, m := range musts {
		for i := range nots {
			for j := -1; j < len(nots); j++ {
				n := [][]Elem{nots[i]}
				if j >= 0 {
					n = append(n, nots[j])
				}
				t := Token{Name: "x", Must: m, Not: n}
				yt := Token{Name: "y", Must: [][]Elem{{b}, {a, a}}}
				add("not", []Token{t, yt}, nil, abc)
				if j < 0 {
					for _, cd := range []Card{Star, Plus, Opt, N(2)} {
						add("not", []Token{{Name: "w", Must: [][]Elem{{x(cd), E("C", Opt)}}}, t, yt}, nil, abc)
						add("not", []Token{{Name: "w", Must: [][]Elem{{x(cd), y(One)}, {y(cd)}}}, t, yt}, nil, ab)
					}
				}
			}
		}
	}

	// recursion
	rec := [][]Elem{{a, x(One), b}, {a, x(One)}, {a, x(One), c}, {a, x(Opt), b}, {a}, {b}, {c}, {a, y(One)}, {y(Opt), b, x(Opt)}, {b, x(Star)}, {y(One), x(One)}}
	yr := [][][]Elem{{{b, x(One)}, {b}}, {{b, y(One), a}, {c}}, {{x(One), b}, {c}}, {{c, x(N(2))}, {c}}}
	for i := range rec {
		for j := range rec {
			for k := -1; k < len(rec); k++ {
				lines := [][]Elem{rec[i], rec[j]}
				if k >= 0 {
					if !deep && (i+j+k)%4 != 0 {
						continue
					}
					lines = append(lines, rec[k])
				}
				if !Uses(lines, "y") {
					add("recursion", []Token{{Name: "x", Must: lines}}, nil, abc)
					continue
				}
				for n, yl := range yr {
					if !deep && (i+j+k+n)%2 != 0 {
						continue
					}
					add("recursion", []Token{{Name: "x", Must: lines}, {Name: "y", Must: yl}}, nil, abc)
				}
			}
		}
	}

	// nested tokens that share names
	inner := [][]Elem{{a, E("z", One)}, {E("z", One), a}, {E("z", Plus)}, {a, E("z", Opt), b}, {E("z", One), E("w", Opt)}}
	wl := [][]Elem{{b, E("z", One), a}, {E("z", N(2))}, {a, E("B", Plus)}}
	zl := [][][]Elem{{{a}}, {{b}, {a, b}}, {{a, E("B", Star)}}, {{b, E("z", Opt)}}}
	for _, l := range [][]Elem{{y(One), E("z", One)}, {E("z", One), y(One)}, {E("w", One), y(Opt)}, {y(Plus), a}, {b, y(One), E("w", One)}, {E("w", Plus), y(One), E("z", Opt)}, {y(One), a, y(One)}} {
		for _, yl := range inner {
			for _, w := range wl {
				for _, zz := range zl {
					add("nested", []Token{{Name: "x", Must: [][]Elem{l}}, {Name: "y", Must: [][]Elem{yl}}, {Name: "w", Must: [][]Elem{w}}, {Name: "z", Must: zz}}, nil, Words([]string{"a", "b"}, 0, pick(6, 8)))
				}
			}
		}
	}

	// channels
	sp := Words([]string{"a", "b", " "}, 0, pick(5, 6))
	spc := Words([]string{"a", " ", "%"}, 0, pick(5, 6))
	blanks := []Rule{{Name: "A", Const: "a"}, {Name: "B", Const: "b"}, {Name: "S", Const: " "}, {Name: "T", Const: "%"}, {Name: "P", Const: "  "}}
	chs := [][]Token{
		{{Name: "blanks", Must: [][]Elem{{E("S", Plus)}}}},
		{{Name: "blank", Must: [][]Elem{{E("S", One)}}}, {Name: "mark", Must: [][]Elem{{E("T", One), E("S", Opt)}}}},
		{{Name: "pair", Must: [][]Elem{{E("P", One)}}}, {Name: "one", Must: [][]Elem{{E("S", One)}, {E("T", N(2))}}, Not: [][]Elem{{E("S", N(3))}}}},
	}
	chLines := [][]Elem{
		{a}, {a, b}, {a, E("B", Opt)}, {a, E("B", Opt), a}, {E("A", Plus)}, {E("A", N(2))}, {y(One)}, {y(Plus)}, {y(N(2)), a}, {a, y(Opt)}, {y(Star), b},
		{SW, a}, {SW, a, b}, {a, SW, b}, {SW, a, b, SW}, {a, SW, b, a}, {SW, y(One)}, {y(One), SW, y(One)}, {SW, y(Plus)}, {a, SW, E("B", Opt), a},
		{E("A", Opt), b}, {E("A", Opt), SW, b}, {a, E("S", One), a}, {a, SW, E("S", One), a}, {a, SW, E("T", Plus)},
	}
	ych := [][][]Elem{{{a, b}}, {{SW, a, b, SW}}, {{a}, {SW, b, b}}, {{E("A", Plus), E("B", Opt)}}, {{a, SW, a}}}
	// channels that begin alike, in both orders, and channels that read what the lines read
	alike := [][]Token{
		{{Name: "short", Must: [][]Elem{{E("S", One)}}}, {Name: "long", Must: [][]Elem{{E("S", One), a}}}},
		{{Name: "long", Must: [][]Elem{{E("S", One), a}}}, {Name: "short", Must: [][]Elem{{E("S", One)}}}},
		{{Name: "letter", Must: [][]Elem{{b}}}, {Name: "short", Must: [][]Elem{{E("S", Plus)}}}, {Name: "long", Must: [][]Elem{{b, a}}}},
	}
	for ci, ch := range append(append([][]Token{}, chs...), alike...) {
		for _, l := range chLines {
			tests := sp
			if ci == 1 || ci == 2 {
				tests = spc
			}
			n := len(ych)
			if !Uses([][]Elem{l}, "y") {
				n = 1
			}
			for _, yl := range ych[:n] {
				for _, extra := range [][]Elem{nil, {b}, {a, a}} {
					lines := [][]Elem{l}
					if extra != nil {
						lines = append(lines, extra)
					}
					out = append(out, Case{"channels", Grammar{Rules: blanks, Tokens: []Token{{Name: "x", Must: lines}, {Name: "y", Must: yl}}, Channels: ch}, "x", tests})
				}
			}
		}
	}

	// specifiers
	scards := []Card{N(1), N(2), Rg(0, 1), Rg(1, 2), Rg(2, -1), N(3)}
	ysp := [][][]Elem{{{E("A", Plus), E("B", Star)}}, {{a, b}, {b}}, {{E("A", Rg(1, 2)), b, E("A", Opt)}}, {{E("z", Plus), E("B", Opt)}}}
	for _, yl := range ysp {
		for _, cd := range []Card{One, Opt, Plus, Star, Rg(1, 2)} {
			for _, s1 := range scards {
				for _, name := range []string{"A", "B", "z"} {
					specs := []Spec{{name, s1}}
					e := Elem{Name: "y", Card: cd, Specs: specs}
					z := Token{Name: "z", Must: [][]Elem{{a}, {b, b}}}
					for _, l := range [][]Elem{{e}, {e, E("C", Opt)}, {b, e}} {
						if !deep && len(l) > 1 && s1.Max > 2 {
							continue
						}
						add("specifiers", []Token{{Name: "x", Must: [][]Elem{l}}, {Name: "y", Must: yl}, z}, nil, ab)
					}
					if name == "A" {
						e2 := Elem{Name: "y", Card: cd, Specs: append(append([]Spec{}, specs...), Spec{"B", Rg(0, 1)})}
						add("specifiers", []Token{{Name: "x", Must: [][]Elem{{e2}, {a}}}, {Name: "y", Must: yl}, z}, nil, ab)
						// twice on the same name: both hold
						for _, s2 := range []Card{N(1), N(2), Rg(2, -1)} {
							if s2 == s1 || (!deep && cd != One && cd != Plus) {
								continue
							}
							es := Elem{Name: "y", Card: cd, Specs: []Spec{{"A", s1}, {"A", s2}}}
							add("specifiers", []Token{{Name: "x", Must: [][]Elem{{es}}}, {Name: "y", Must: yl}, z}, nil, ab)
							e3 := Elem{Name: "y", Card: cd, Specs: []Spec{{"A", s1}, {"B", Rg(0, 2)}, {"A", s2}}}
							add("specifiers", []Token{{Name: "x", Must: [][]Elem{{e3, E("B", Opt)}}}, {Name: "y", Must: yl}, z}, nil, ab)
						}
						// on a recursive element
						er := Elem{Name: "x", Card: cd, Specs: specs}
						add("specifiers", []Token{{Name: "x", Must: [][]Elem{{E("A", Plus), E("B", One), er}, {E("A", Rg(1, 3))}}}}, nil, ab)
					}
				}
			}
		}
	}

	// channels with excluded lines, with specifiers and with recursion; specifiers with excluded lines
	spt := Words([]string{"a", "b", " "}, 0, pick(4, 6))
	ns := [][]Elem{{a, b}, {a, SW, b}, {SW, a, b}, {E("A", N(2))}, {y(One), b}, {a, E("S", One)}, {y(N(2))}}
	ms := [][][]Elem{{{E("A", Plus)}}, {{a, E("B", Opt)}}, {{SW, a, SW, E("B", Star)}}, {{y(Plus)}}}
	for ci, ch := range chs {
		for _, m := range ms {
			for i, n := range ns {
				t := Token{Name: "x", Must: m, Not: [][]Elem{n}}
				yt := Token{Name: "y", Must: ych[(ci+i)%len(ych)]}
				g := Grammar{Rules: blanks, Tokens: []Token{t, yt}, Channels: ch}
				out = append(out, Case{"combined", g, "x", spt})
				for _, cd := range []Card{Plus, N(2)} {
					g.Tokens = []Token{{Name: "w", Must: [][]Elem{{x(cd), E("B", Opt)}}}, t, yt}
					out = append(out, Case{"combined", g, "w", spt})
				}
				if deep || (ci+i)%2 == 0 {
					g.Tokens = []Token{{Name: "w", Must: [][]Elem{{SW, x(One), SW, E("B", Opt)}, {x(One), x(One)}}}, t, yt}
					out = append(out, Case{"combined", g, "w", spt})
				}
			}
		}
		for _, s1 := range scards {
			for _, yl := range [][][]Elem{{{a, a}}, {{E("A", Plus), E("B", Star)}}, {{SW, a, E("B", Opt), SW, a}}, {{a, E("z", Opt)}, {b, a}}, {{E("z", Plus)}}} {
				for _, cd := range []Card{One, Rg(0, 1), Plus} {
					for _, name := range []string{"A", "B", "z"} {
						e := Elem{Name: "y", Card: cd, Specs: []Spec{{name, s1}}}
						z := Token{Name: "z", Must: [][]Elem{{b, a}, {b}}}
						g := Grammar{Rules: blanks, Tokens: []Token{{Name: "x", Must: [][]Elem{{e}, {a, e}}}, {Name: "y", Must: yl}, z}, Channels: ch}
						out = append(out, Case{"combined", g, "x", spt})
						if !deep && name != "A" {
							continue
						}
						g.Channels = nil
						g.Tokens = []Token{{Name: "x", Must: [][]Elem{{E("A", Star), E("B", Star)}}, Not: [][]Elem{{e, b}, {b, e}}}, {Name: "y", Must: yl}, z}
						out = append(out, Case{"combined", g, "x", ab})
						g.Tokens = []Token{{Name: "x", Must: [][]Elem{{e, E("B", Star)}}}, {Name: "y", Must: yl, Not: [][]Elem{{E("A", N(2))}, {b, b}}}, z}
						out = append(out, Case{"combined", g, "x", ab})
					}
				}
			}
		}
		for i, l := range [][][]Elem{{{a, x(One), b}, {a}}, {{a, x(Opt), b}}, {{a, SW, x(Opt), SW, b}, {b}}, {{b, x(N(2))}, {a}}, {{a, y(One)}, {b}}, {{a, x(Star), b}}} {
			g := Grammar{Rules: blanks, Tokens: []Token{{Name: "x", Must: l}, {Name: "y", Must: [][]Elem{{b, x(One)}, {b}}}}, Channels: ch}
			out = append(out, Case{"combined", g, "x", spt})
			if i%2 == 0 {
				g.Tokens = append([]Token{{Name: "w", Must: [][]Elem{{x(Plus)}}}}, g.Tokens...)
				out = append(out, Case{"combined", g, "w", spt})
			}
		}
	}

	// patterns
	base := Grammar{
		Groups: []Group{{"L", []string{"a", "ab"}}, {"D", []string{"1", "2", "12"}}, {"Q", []string{"!"}}, {"O", []string{"("}}, {"K", []string{")"}}, {"SP", []string{" ", "\n"}}},
		Series: []Serie{{"LET", []string{"L"}}, {"DIG", []string{"D"}}, {"LD", []string{"L", "D"}}, {"QUO", []string{"Q"}}, {"OPE", []string{"O"}}, {"CLO", []string{"K"}}, {"SPA", []string{"SP"}}},
		Patterns: []Pattern{{"letter", []Choice{{"LET", false}}}, {"digit", []Choice{{"DIG", false}}}, {"both", []Choice{{"LD", false}}}, {"notq", []Choice{{"QUO", true}}},
			{"comment", []Choice{{"OPE", false}, {"CLO", true}, {"CLO", false}}}, {"space", []Choice{{"SPA", false}}}},
	}
	pr := []Rule{
		{Name: "LETTERS", Pats: []string{"letter"}, Card: Plus}, {Name: "LETTER", Pats: []string{"letter"}, Card: N(1)}, {Name: "TWO", Pats: []string{"letter"}, Card: Rg(2, 3)},
		{Name: "WORD", Pats: []string{"letter", "digit"}, Card: Plus}, {Name: "BOTH", Pats: []string{"both"}, Card: N(1)}, {Name: "TEXT", Pats: []string{"notq"}, Card: N(1)},
		{Name: "QUO", Const: "!"}, {Name: "COMMENT", Pats: []string{"comment"}, Card: N(1)}, {Name: "SPACES", Pats: []string{"space"}, Card: Plus}, {Name: "AB", Const: "ab"}, {Name: "ONE", Const: "1"},
	}
	pl := [][]Elem{
		{E("LETTERS", One)}, {E("LETTER", Plus)}, {E("LETTER", N(2)), E("WORD", Opt)}, {E("TWO", One)}, {E("TWO", Plus), E("ONE", Opt)}, {E("WORD", One), E("ONE", Star)}, {E("BOTH", Plus)},
		{E("BOTH", Opt), E("LETTERS", One)}, {E("QUO", One), E("TEXT", One), E("QUO", One)}, {E("QUO", One), SW, E("TEXT", One), E("QUO", One)}, {E("AB", Star), E("LETTERS", Opt), E("ONE", Opt)},
		{SW, E("LETTER", One), E("WORD", One), SW}, {E("LETTERS", One), E("LETTERS", One)}, {E("TEXT", One)}, {E("WORD", Rg(1, 2)), E("QUO", One)},
	}
	ptexts := append(Words([]string{"a", "b", "1"}, 0, pick(4, 5)), Words([]string{"a", "1", "!", " "}, 1, pick(4, 5))...)
	ctexts := Words([]string{"a", "1", " ", "(", ")"}, 1, pick(4, 5))
	ch := []Token{{Name: "spaces", Must: [][]Elem{{E("SPACES", One)}}}, {Name: "comment", Must: [][]Elem{{E("COMMENT", One)}}}}
	for i, l := range pl {
		g := base
		g.Rules = pr
		g.Tokens = []Token{{Name: "x", Must: [][]Elem{l}}}
		out = append(out, Case{"patterns", g, "x", ptexts})
		g.Channels = ch
		out = append(out, Case{"patterns", g, "x", ptexts}, Case{"patterns", g, "x", ctexts})
		for _, o := range pl[i+1:] {
			g.Tokens = []Token{{Name: "x", Must: [][]Elem{l, o}}}
			out = append(out, Case{"patterns", g, "x", ptexts})
			g.Tokens = []Token{{Name: "x", Must: [][]Elem{{E("y", Plus)}}}, {Name: "y", Must: [][]Elem{l, o}}}
			out = append(out, Case{"patterns", g, "x", ptexts})
		}
	}
	return append(out, Large(deep)...)
}

// LineFamilies enumerates grammars whose texts have several lines.
func LineFamilies(deep bool) []Case {
	out := []Case{}
	n := 5
	if deep {
		n = 7
	}
	texts := Words([]string{"a", "b", "\n"}, 0, n)
	rules := []Rule{{Name: "A", Const: "a"}, {Name: "B", Const: "b"}, {Name: "E", Const: "\n"}, {Name: "AA", Const: "a\na"}}
	a, b, e := E("A", One), E("B", One), E("E", One)
	lines := [][][]Elem{
		{{a, e, b}}, {{a, E("E", Plus), a, b}}, {{E("y", Plus), b}}, {{E("y", N(2)), b}}, {{a, e, b}, {a, a}}, {{E("AA", Opt), b, b}}, {{E("y", Rg(1, 2)), E("E", Plus), a}},
		{{a, SW, b, e, SW, a}}, {{E("AA", N(2))}}, {{E("E", Star), b}},
	}
	ys := [][][]Elem{{{a, e}}, {{a, e}, {b, e, b}}, {{E("A", Plus), E("E", N(2))}}}
	chs := [][]Token{nil, {{Name: "ends", Must: [][]Elem{{E("E", Plus)}}}}}
	for _, l := range lines {
		for _, yl := range ys {
			for _, ch := range chs {
				t := []Token{{Name: "x", Must: l}, {Name: "y", Must: yl}}
				out = append(out, Case{"lines", Grammar{Rules: rules, Tokens: t, Channels: ch}, "x", texts})
				t2 := []Token{{Name: "x", Must: l, Not: [][]Elem{{a, e, e}, {b, e, a}}}, {Name: "y", Must: yl, Not: [][]Elem{{a, e, b}}}}
				out = append(out, Case{"lines", Grammar{Rules: rules, Tokens: t2, Channels: ch}, "x", texts})
			}
		}
	}
	return out
}
