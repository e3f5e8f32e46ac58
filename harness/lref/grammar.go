// Package lref is the reference model of the grammar language: definitions, their texts, and what they match.
package lref

import (
	"fmt"
	"strings"
)

// Card is a cardinality: Max < 0 means without maximum. Text is the way it is written.
type Card struct {
	Min, Max int
	Text     string
}

// Has tells whether n is admitted.
func (c Card) Has(n int) bool { return n >= c.Min && (c.Max < 0 || n <= c.Max) }

// Cards
var (
	One  = Card{1, 1, ""}
	Plus = Card{1, -1, "+"}
	Star = Card{0, -1, "*"}
	Opt  = Card{0, 1, "?"}
)

// N is {n}
func N(n int) Card { return Card{n, n, fmt.Sprintf("{%d}", n)} }

// Rg is {a,b}, or {a,} when b < 0
func Rg(a, b int) Card {
	if b < 0 {
		return Card{a, -1, fmt.Sprintf("{%d,}", a)}
	}
	return Card{a, b, fmt.Sprintf("{%d,%d}", a, b)}
}

// Group is a set of character sequences
type Group struct {
	Name string
	Opts []string
}

// Serie is a sequence of groups
type Serie struct {
	Name   string
	Groups []string
}

// Choice is a serie, or everything before a serie
type Choice struct {
	Serie string
	Rev   bool
}

// Pattern is a sequence of choices
type Pattern struct {
	Name    string
	Choices []Choice
}

// Rule is a constant or repeated patterns
type Rule struct {
	Name  string
	Const string
	Pats  []string
	Card  Card
}

// Spec limits the amount of a sub element
type Spec struct {
	Name string
	Card Card
}

// Elem is a token or rule reference, or a switch of channels
type Elem struct {
	Name   string
	Card   Card
	Specs  []Spec
	Switch bool
}

// IsRule tells if the reference is to a rule
func (e Elem) IsRule() bool { return e.Name != "" && !(e.Name[0] >= 'a' && e.Name[0] <= 'z') }

// Token is a production
type Token struct {
	Name  string
	Must  [][]Elem
	Not   [][]Elem
	Suite []string
}

// Grammar is everything
type Grammar struct {
	Groups   []Group
	Series   []Serie
	Patterns []Pattern
	Rules    []Rule
	Tokens   []Token
	Channels []Token
}

// Style is a way of writing the same definitions
type Style struct {
	Name     string
	Sep      string // between items
	Pad      string // around : and before ;
	Reversed bool   // sections in the opposite order
}

// Styles of pattern texts
var Styles = []Style{
	{"compact", "", "", false}, {"spaced", "\n", " ", false}, {"lines", "\n\n", "\n\t", false}, {"reversed", "\r\n", " ", true},
}

func esc(s string) string { return strings.Replace(s, `"`, `\"`, -1) }

// PatternsText writes the groups, series and patterns
func (g Grammar) PatternsText(st Style) string {
	gr, se, pa := "", "", ""
	for _, x := range g.Groups {
		o := []string{}
		for _, s := range x.Opts {
			o = append(o, esc(s))
		}
		gr += "$" + x.Name + st.Pad + ":" + st.Pad + `"` + strings.Join(o, ",") + `"` + st.Pad + ";" + st.Sep
	}
	for _, x := range g.Series {
		o := []string{}
		for _, s := range x.Groups {
			o = append(o, "$"+s)
		}
		se += x.Name + st.Pad + ":" + st.Pad + strings.Join(o, " ") + st.Pad + ";" + st.Sep
	}
	for _, x := range g.Patterns {
		o := []string{}
		for _, c := range x.Choices {
			if c.Rev {
				o = append(o, "@"+c.Serie)
			} else {
				o = append(o, c.Serie)
			}
		}
		pa += x.Name + st.Pad + ":" + st.Pad + strings.Join(o, " ") + st.Pad + ";" + st.Sep
	}
	if st.Reversed {
		return gr + se + pa
	}
	return pa + se + gr
}

// RulesText writes the rules
func (g Grammar) RulesText(st Style) string {
	out := ""
	for _, x := range g.Rules {
		if len(x.Pats) > 0 {
			out += x.Name + ":" + st.Pad + "[" + strings.Join(x.Pats, " ") + "]" + x.Card.Text + st.Pad + ";" + st.Sep
			continue
		}
		out += x.Name + ":" + st.Pad + `"` + esc(x.Const) + `"` + st.Pad + ";" + st.Sep
	}
	return out
}

func (e Elem) text(pad string) string {
	if e.Switch {
		return "#"
	}
	s := e.Name + e.Card.Text
	if len(e.Specs) > 0 {
		l := []string{}
		for _, x := range e.Specs {
			l = append(l, x.Name+x.Card.Text)
		}
		s += "->" + strings.Join(l, pad) + "<-"
	}
	return s
}

func linesText(lines [][]Elem, pad string) string {
	l := []string{}
	for _, x := range lines {
		e := []string{}
		for _, y := range x {
			e = append(e, y.text(" "))
		}
		l = append(l, strings.Join(e, " "))
	}
	return strings.Join(l, pad+"|"+pad)
}

// TokensText writes tokens
func TokensText(tokens []Token, st Style) string {
	out := ""
	for _, t := range tokens {
		out += t.Name + st.Pad + ":" + st.Pad + linesText(t.Must, st.Pad)
		if len(t.Not) > 0 {
			out += " " + st.Pad + "---" + st.Pad + ":" + st.Pad + linesText(t.Not, st.Pad)
		}
		if len(t.Suite) > 0 {
			out += " " + st.Pad + "+++" + st.Pad + ":" + st.Pad + strings.Join(t.Suite, "###")
		}
		out += st.Pad + ";" + st.Sep
	}
	return out
}

// lookups

func (g Grammar) group(n string) Group {
	for _, x := range g.Groups {
		if x.Name == n {
			return x
		}
	}
	panic("no group " + n)
}

func (g Grammar) serie(n string) Serie {
	for _, x := range g.Series {
		if x.Name == n {
			return x
		}
	}
	panic("no serie " + n)
}

func (g Grammar) pattern(n string) Pattern {
	for _, x := range g.Patterns {
		if x.Name == n {
			return x
		}
	}
	panic("no pattern " + n)
}

// Rule finds a rule
func (g Grammar) Rule(n string) Rule {
	for _, x := range g.Rules {
		if x.Name == n {
			return x
		}
	}
	panic("no rule " + n)
}

// Token finds a token
func (g Grammar) Token(n string) Token {
	for _, x := range g.Tokens {
		if x.Name == n {
			return x
		}
	}
	panic("no token " + n)
}

// Disc is one discovery
type Disc struct {
	Text string
	Name string
	Rev  bool
}

// Match is what a pattern matches
type Match struct {
	Index     int
	Discs     []Disc
	Remaining string
	Next      string // group expected next when the pattern is not complete
}

// Content of the match
func (m *Match) Content() string {
	s := ""
	for _, d := range m.Discs {
		s += d.Text
	}
	return s
}

// GroupLen is the length of the longest option that begins s
func (g Grammar) GroupLen(name, s string) int {
	best := 0
	for _, o := range g.group(name).Opts {
		if len(o) > best && strings.HasPrefix(s, o) {
			best = len(o)
		}
	}
	return best
}

// serieAt: discoveries of the serie at the beginning of s, or the group that is missing
func (g Grammar) serieAt(name, s string) (d []Disc, rest, missing string) {
	rest = s
	for _, gn := range g.serie(name).Groups {
		n := g.GroupLen(gn, rest)
		if n == 0 {
			return nil, s, gn
		}
		d = append(d, Disc{rest[:n], "$" + gn, false})
		rest = rest[n:]
	}
	return d, rest, ""
}

// At matches a pattern at the beginning of s, possibly partially
func (g Grammar) At(name, s string) *Match {
	m := &Match{Remaining: s}
	for _, c := range g.pattern(name).Choices {
		if c.Rev {
			i := 0
			for ; i < len(m.Remaining); i++ {
				if _, _, missing := g.serieAt(c.Serie, m.Remaining[i:]); missing == "" {
					break
				}
			}
			if i > 0 {
				m.Discs = append(m.Discs, Disc{m.Remaining[:i], c.Serie, true})
				m.Remaining = m.Remaining[i:]
			}
			continue
		}
		d, rest, missing := g.serieAt(c.Serie, m.Remaining)
		if missing != "" {
			m.Next = missing
			break
		}
		m.Discs, m.Remaining = append(m.Discs, d...), rest
	}
	if len(m.Discs) == 0 {
		return nil
	}
	return m
}

// Find is the first match of the pattern anywhere in s
func (g Grammar) Find(name, s string) *Match {
	for i := 0; i < len(s); i++ {
		if m := g.At(name, s[i:]); m != nil {
			m.Index = i
			return m
		}
	}
	return nil
}

// FindAny is the leftmost match of the patterns, the first of them on a tie
func (g Grammar) FindAny(names []string, s string) *Match {
	var best *Match
	for _, n := range names {
		if m := g.Find(n, s); m != nil && (best == nil || m.Index < best.Index) {
			best = m
		}
	}
	return best
}

// RuleMatch is what a rule matches once
type RuleMatch struct {
	Index   int
	Content string
	Amount  int
	Parts   []*Match
}

// Once matches a rule one time: a constant anywhere in s (the first one), patterns at the beginning of s.
func (g Grammar) Once(name, s string) *RuleMatch {
	rl := g.Rule(name)
	if len(rl.Pats) == 0 {
		i := strings.Index(s, rl.Const)
		if i < 0 || s == "" {
			return nil
		}
		return &RuleMatch{Index: i, Content: rl.Const, Amount: 1, Parts: []*Match{{Index: i, Discs: []Disc{{rl.Const, rl.Const, false}}, Remaining: s[i+len(rl.Const):]}}}
	}
	out := &RuleMatch{}
	rest := s
	for rest != "" && (rl.Card.Max < 0 || out.Amount < rl.Card.Max) {
		m := g.FindAny(rl.Pats, rest)
		if m == nil || m.Index > 0 {
			break
		}
		out.Amount++
		out.Content += m.Content()
		out.Parts = append(out.Parts, m)
		rest = rest[len(m.Content()):]
	}
	if out.Amount == 0 || !rl.Card.Has(out.Amount) {
		return nil
	}
	return out
}
