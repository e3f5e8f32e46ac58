package lref

import (
	"fmt"
	"strings"
)

// Spellings of the letters of grammars and texts: characters of several bytes, bytes that are no characters, texts that are
// written like definitions, texts that begin with each other, and texts that end where others begin.
var Spellings = []map[string]string{
	{"a": "é", "b": "世", "c": "😀", " ": "\u00a0"},
	{"a": "\xff", "b": "\xc3", "c": "\xa9"},
	{"a": "b", "b": "bb", "c": "bbb"},
	{"a": "aba", "b": "ab", "c": "b"},
	{"a": "->", "b": "---", "c": "+++:", " ": "\t"},
	{"a": "\"", "b": "{", "c": "}", " ": ":"},
	{"a": " ", "b": "\n", "c": "\r\n", " ": "a", "\n": "c"},
	{"a": "%s", "b": "%", "c": "$1", " ": "%%"},
	{"a": "e\u0301", "b": "e", "c": "\u0301"},
	{"a": "A", "b": "a", "c": "K", " ": "k"},
}

// Spell writes text with a spelling.
func Spell(text string, sp map[string]string) string {
	out := strings.Builder{}
	for i := 0; i < len(text); i++ {
		if to, ok := sp[text[i:i+1]]; ok {
			out.WriteString(to)
			continue
		}
		out.WriteByte(text[i])
	}
	return out.String()
}

// Names for the tokens and rules of grammars: names that begin with each other, in another order, long ones.
var Names = []map[string]string{
	{"x": "token", "y": "tokenA", "z": "to", "w": "tokenAB", "A": "AB", "B": "A", "C": "ABC"},
	{"x": "z", "y": "x", "z": "y", "A": "C", "B": "A", "C": "B"},
	{"x": "aLongNameOfATokenThatIsTheRootOfTheGrammar", "y": "aLongNameOfATokenThatIsTheRootOfTheGrammarToo", "z": "a", "w": "aA", "A": "_", "B": "__", "C": "_A_"},
	{"x": "pReAd", "y": "pREAD", "z": "prEAd", "w": "pread"},
}

// Renamed gives the case with other names.
func (c Case) Renamed(names map[string]string) Case {
	to := func(n string) string {
		if x, ok := names[n]; ok {
			return x
		}
		return n
	}
	lines := func(list [][]Elem) [][]Elem {
		if list == nil {
			return nil
		}
		out := [][]Elem{}
		for _, l := range list {
			line := []Elem{}
			for _, e := range l {
				e.Name = to(e.Name)
				specs := []Spec{}
				for _, s := range e.Specs {
					specs = append(specs, Spec{to(s.Name), s.Card})
				}
				if e.Specs != nil {
					e.Specs = specs
				}
				line = append(line, e)
			}
			out = append(out, line)
		}
		return out
	}
	tokens := func(list []Token) []Token {
		out := append([]Token{}, list...)
		for i := range out {
			out[i].Name, out[i].Must, out[i].Not = to(out[i].Name), lines(out[i].Must), lines(out[i].Not)
		}
		return out
	}
	g := c.G
	g.Rules = append([]Rule{}, g.Rules...)
	for i := range g.Rules {
		g.Rules[i].Name = to(g.Rules[i].Name)
	}
	g.Tokens, g.Channels = tokens(g.Tokens), tokens(g.Channels)
	return Case{c.Section, g, to(c.Root), c.Scripts}
}

// SpelledAndNamed is Spelled, with other names as well.
func SpelledAndNamed(cases []Case, stride int, spellings []map[string]string) []Case {
	out := Spelled(cases, stride, spellings)
	for i := range out {
		out[i] = out[i].Renamed(Names[(i+i/len(spellings))%len(Names)])
	}
	return out
}

// Spelled gives one case of every stride with another spelling of its letters; every case has its turn, and every spelling.
func Spelled(cases []Case, stride int, spellings []map[string]string) []Case {
	out := []Case{}
	for i, c := range cases {
		if c.Section == "large" || i%stride != 0 {
			continue
		}
		k := (i / stride) % len(spellings)
		out = append(out, c.Spelled(spellings[k], fmt.Sprintf("%s, spelled %d", c.Section, k)))
	}
	return out
}

// Spelled gives the case with another spelling.
func (c Case) Spelled(sp map[string]string, section string) Case {
	g := c.G
	g.Rules = append([]Rule{}, g.Rules...)
	for i := range g.Rules {
		g.Rules[i].Const = Spell(g.Rules[i].Const, sp)
	}
	g.Groups = append([]Group{}, g.Groups...)
	for i := range g.Groups {
		opts := []string{}
		for _, o := range g.Groups[i].Opts {
			opts = append(opts, Spell(o, sp))
		}
		g.Groups[i].Opts = opts
	}
	spellTokens := func(list []Token) []Token {
		out := append([]Token{}, list...)
		for i := range out {
			suite := []string{}
			for _, s := range out[i].Suite {
				suite = append(suite, Spell(s, sp))
			}
			if out[i].Suite != nil {
				out[i].Suite = suite
			}
		}
		return out
	}
	g.Tokens, g.Channels = spellTokens(g.Tokens), spellTokens(g.Channels)
	scripts := []string{}
	seen := map[string]bool{}
	for _, s := range c.Scripts {
		t := Spell(s, sp)
		if !seen[t] {
			seen[t] = true
			scripts = append(scripts, t)
		}
	}
	return Case{Section: section, G: g, Root: c.Root, Scripts: scripts}
}
