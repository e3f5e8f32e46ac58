package lref

import (
	"fmt"
	"strings"
)

// Item is one matched element of a line: a rule, or a token with its repetitions.
type Item struct {
	Name  string
	Rule  bool
	Text  string
	Nodes []*Node
}

// Node is one token of the derivation.
type Node struct {
	Token string
	Line  int
	Items []Item
	Text  string
	// what the specifiers count
	counts map[string]int
}

// String prints a derivation, without ambiguity.
func (n *Node) String() string {
	if n == nil {
		return "nil"
	}
	out := []string{}
	for _, i := range n.Items {
		if i.Rule {
			out = append(out, fmt.Sprintf("%s=%q", i.Name, i.Text))
			continue
		}
		sub := []string{}
		for _, x := range i.Nodes {
			sub = append(sub, x.String())
		}
		out = append(out, i.Name+"["+strings.Join(sub, " ")+"]")
	}
	return fmt.Sprintf("%s/%d(%s)", n.Token, n.Line, strings.Join(out, " "))
}

// Mistake tells why a text is refused.
type Mistake struct {
	Kind   string // nomatch, not, specifier, next, cardinality, prefix
	At     int    // what was read before
	Rule   string // name of the rule, or empty when it is reported on the token
	Token  string
	Amount int
	Name   string // container of the specifier
	Prefix string
	Line   int
	Next   string // what the text should go on with
}

// Key identifies a mistake.
func (m *Mistake) Key() string {
	return fmt.Sprintf("%s@%d rule=%q token=%q amount=%d name=%q prefix=%q line=%d next=%s", m.Kind, m.At, m.Rule, m.Token, m.Amount, m.Name, m.Prefix, m.Line, m.Next)
}

// Parser is the reference interpreter of a grammar: ordered, greedy, the alternative that reads the most wins.
type Parser struct {
	G Grammar
	// LeftRecursive is set when a token had to begin with itself, a case in which the reference is silent.
	LeftRecursive bool
	// Partial is set when a pattern matched only its first choices, a case in which the reference is silent.
	Partial bool
	// Exhausted is set when the budget was used up.
	Exhausted bool
	Budget    int // steps left
	active    map[string]bool
	script    string
	tokens    map[string]Token
}

// Parse derives the beginning of the script from the token. Exactly one of the results is not nil.
func (p *Parser) Parse(root, script string) (*Node, *Mistake) {
	p.LeftRecursive, p.Partial, p.Exhausted = false, false, false
	p.Budget = 20000
	p.active = map[string]bool{}
	p.script = script
	if p.tokens == nil {
		p.tokens = map[string]Token{}
		for _, t := range p.G.Tokens {
			p.tokens[t.Name] = t
		}
	}
	return p.token(p.tokens[root], 0, true)
}

type lineResult struct {
	node   *Node // when it matches
	amount int   // blocks, when it does not
	bad    *Mistake
}

// token derives one occurrence of the token at pos.
func (p *Parser) token(t Token, pos int, chans bool) (*Node, *Mistake) {
	p.Budget--
	if p.Budget < 0 {
		p.Exhausted = true
		return nil, &Mistake{Kind: "nomatch", At: pos, Token: t.Name}
	}
	key := fmt.Sprintf("%s %d", t.Name, pos)
	if p.active[key] {
		p.LeftRecursive = true
		return nil, &Mistake{Kind: "nomatch", At: pos, Token: t.Name}
	}
	p.active[key] = true
	defer delete(p.active, key)
	must, bad := p.best(t, t.Must, pos, chans)
	if must == nil && bad == nil {
		return nil, &Mistake{Kind: "nomatch", At: pos, Token: t.Name}
	}
	if len(t.Not) > 0 {
		if not, _ := p.best(t, t.Not, pos, chans); not != nil {
			return nil, &Mistake{Kind: "not", At: pos, Token: t.Name, Line: not.Line}
		}
	}
	return must, bad
}

// best is the line that reads the most, the first on a tie; otherwise the mistake of the line that matched the most elements.
func (p *Parser) best(t Token, lines [][]Elem, pos int, chans bool) (*Node, *Mistake) {
	var best *Node
	var worst *lineResult
	for i, l := range lines {
		r := p.line(t, l, pos, chans)
		if r == nil {
			continue
		}
		if r.bad != nil {
			if worst == nil || r.amount > worst.amount {
				worst = r
			}
			continue
		}
		r.node.Line = i
		if len(r.node.Text) > 0 && (best == nil || len(r.node.Text) > len(best.Text)) {
			best = r.node
		}
	}
	if best != nil {
		return best, nil
	}
	if worst != nil {
		return nil, worst.bad
	}
	return nil, nil
}

func (p *Parser) line(t Token, line []Elem, pos int, chans bool) *lineResult {
	n := &Node{Token: t.Name, counts: map[string]int{}}
	amount := 0
	start := pos
	before, inner := chans, chans
	for _, e := range line {
		if e.Switch {
			inner = !inner
			continue
		}
		r := p.elem(t, e, pos, before, inner)
		if r == nil {
			continue
		}
		amount++
		if r.bad != nil {
			return &lineResult{bad: r.bad, amount: amount}
		}
		n.Items = append(n.Items, r.items...)
		n.counts[Shown(e.Name)] += r.count
		pos = r.end
		if !inner {
			before = false
		}
	}
	if amount == 0 {
		return nil
	}
	n.Text = p.script[start:pos]
	return &lineResult{node: n}
}

type elemResult struct {
	items []Item
	end   int
	count int
	bad   *Mistake
}

// elem matches an element; nil when the text is over and the element is optional.
func (p *Parser) elem(t Token, e Elem, pos int, before, inner bool) *elemResult {
	if pos >= len(p.script) {
		if e.Card.Has(0) {
			return nil
		}
		return &elemResult{bad: &Mistake{Kind: "next", At: pos, Token: t.Name, Next: p.first(e, map[string]bool{})}}
	}
	if before {
		for _, c := range p.G.Channels {
			n, _ := p.token(c, pos, false)
			if n == nil {
				continue
			}
			r := p.elem(t, e, pos+len(n.Text), true, inner)
			if r == nil {
				break
			}
			r.items = append(append([]Item{}, n.Items...), r.items...)
			return r
		}
	}
	if e.IsRule() {
		return p.rule(t, e, pos)
	}
	skip := &elemResult{end: pos}
	it := Item{Name: e.Name}
	end := pos
	for e.Card.Max < 0 || len(it.Nodes) < e.Card.Max {
		n, _ := p.token(p.tokens[e.Name], end, inner)
		if n == nil {
			break
		}
		it.Nodes = append(it.Nodes, n)
		end += len(n.Text)
	}
	it.Text = p.script[pos:end]
	amount := len(it.Nodes)
	var bad *Mistake
	if !e.Card.Has(amount) {
		bad = &Mistake{Kind: "cardinality", At: pos, Token: t.Name, Amount: amount}
		if amount == 0 {
			bad = &Mistake{Kind: "nomatch", At: pos, Token: t.Name}
		}
	}
	if bad == nil {
		for _, s := range e.Specs {
			total := 0
			for _, n := range it.Nodes {
				total += n.counts[Shown(s.Name)]
			}
			if !s.Card.Has(total) {
				bad = &Mistake{Kind: "specifier", At: end, Token: t.Name, Amount: total, Name: s.Name}
				break
			}
		}
	}
	if bad != nil {
		if e.Card.Has(0) {
			return skip
		}
		return &elemResult{bad: bad}
	}
	if amount == 0 {
		return skip
	}
	return &elemResult{items: []Item{it}, end: end, count: amount}
}

// first rule that an element begins with: that of the first line of its token, and so on.
func (p *Parser) first(e Elem, seen map[string]bool) string {
	if e.IsRule() {
		if r := p.G.Rule(e.Name); r.Const == "" {
			return "pattern " + r.Pats[0]
		}
		return fmt.Sprintf("%q", p.G.Rule(e.Name).Const)
	}
	if seen[e.Name] {
		return ""
	}
	seen[e.Name] = true
	for _, l := range p.tokens[e.Name].Must {
		for _, x := range l {
			if x.Switch {
				continue
			}
			if out := p.first(x, seen); out != "" {
				return out
			}
			break
		}
	}
	return ""
}

func (p *Parser) rule(t Token, e Elem, pos int) *elemResult {
	s := p.script[pos:]
	amount, end := 0, 0
	prefix := -1
	for e.Card.Max < 0 || amount < e.Card.Max {
		m := p.G.Once(e.Name, s[end:])
		if m == nil || (amount > 0 && m.Index > 0) {
			break
		}
		for _, x := range m.Parts {
			if x.Next != "" {
				p.Partial = true
			}
		}
		amount++
		if m.Index > 0 {
			prefix = m.Index
			break
		}
		end += len(m.Content)
	}
	var bad *Mistake
	if !e.Card.Has(amount) {
		bad = &Mistake{Kind: "cardinality", At: pos, Rule: e.Name, Amount: amount}
	} else if prefix > 0 {
		bad = &Mistake{Kind: "prefix", At: pos, Rule: e.Name, Prefix: s[:prefix]}
	}
	if bad != nil {
		if e.Card.Has(0) {
			return &elemResult{end: pos}
		}
		return &elemResult{bad: bad}
	}
	if amount == 0 {
		return &elemResult{end: pos}
	}
	return &elemResult{items: []Item{{Name: e.Name, Rule: true, Text: s[:end]}}, end: pos + end, count: amount}
}

// Shown is the name without the mark that tells it from the same name of another grammar.
func Shown(name string) string {
	if i := strings.Index(name, "§"); i >= 0 {
		return name[:i]
	}
	return name
}

// Position of a byte: line, and column of the last character read on that line.
func Position(script string, at int) (line, column int) {
	s := script[:at]
	line = strings.Count(s, "\n")
	last := s[strings.LastIndex(s, "\n")+1:]
	if len(last) > 0 {
		column = len(last) - 1
	}
	return line, column
}
