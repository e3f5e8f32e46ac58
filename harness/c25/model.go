package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// link is a reference (Local stands for Inc.Token) or a replacement (Local takes the place of Inc.Token)
type link struct {
	Local, Inc, Token string
	Repl              bool
}

// include names a file
type include struct {
	Name string
	File *file
}

// file is a grammar with its directives
type file struct {
	Path     string // of the tokens (and the rules), without extension
	RulesAt  string // of the rules, when it is another one
	Channels bool   // the include names a file of channels
	Rules    []lref.Rule
	Tokens   []lref.Token
	Suites   string // written after the directives
	Includes []include
	Links    []link
}

// style of the directives
type style struct {
	Name   string
	Gap    string // between the words
	End    string // after a directive
	Place  int    // before, after, or between the tokens
	Tokens lref.Style
}

var styles = []style{
	{"lines", " ", "\n", 0, lref.Style{Name: "lines", Sep: "\n", Pad: " "}},
	{"tabs", "\t", "\r\n\n", 1, lref.Style{Name: "spaced", Sep: "\n\n", Pad: "\n\t"}},
	{"wide", " \n  ", "  ", 2, lref.Style{Name: "compact", Sep: "\n", Pad: ""}},
}

func (f *file) rules() string {
	if f.RulesAt != "" {
		return f.RulesAt
	}
	return f.Path
}

func (i include) path() string {
	out := i.File.rules() + ".rules;" + i.File.Path + ".tokens"
	if i.File.Channels {
		out += ";" + i.File.Path + ".channels"
	}
	return out
}

func (l link) text(gap string) string {
	if l.Repl {
		return "replace" + gap + l.Inc + "." + l.Token + gap + l.Local
	}
	return "reference" + gap + l.Local + gap + l.Inc + "." + l.Token
}

// directives of a file
func (f *file) directives(st style) string {
	out := ""
	for _, i := range f.Includes {
		out += "include" + st.Gap + i.Name + st.Gap + `"` + i.path() + `"` + st.End
	}
	for _, l := range f.Links {
		out += l.text(st.Gap) + st.End
	}
	return out
}

// text of the tokens and the directives
func (f *file) text(st style) string {
	d := f.directives(st)
	switch st.Place {
	case 0:
		return d + lref.TokensText(f.Tokens, st.Tokens)
	case 1:
		return lref.TokensText(f.Tokens, st.Tokens) + "\n" + d
	}
	return lref.TokensText(f.Tokens[:1], st.Tokens) + "\n" + d + lref.TokensText(f.Tokens[1:], st.Tokens)
}

// write the included files below the folders of the rules and the tokens.
func (f *file) write(dir string, st style) {
	for _, i := range f.Includes {
		i.File.write(dir, st)
		put(filepath.Join(dir, "rules", i.File.rules()+".rules"), lref.Grammar{Rules: i.File.Rules}.RulesText(st.Tokens))
		put(filepath.Join(dir, "tokens", i.File.Path+".tokens"), i.File.text(st))
	}
}

func put(name, content string) {
	if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
		vlib.Failf("%s", err)
	}
	if err := ioutil.WriteFile(name, []byte(content), 0644); err != nil {
		vlib.Failf("%s", err)
	}
}

// merger writes everything in one grammar: every name gets the mark of its file.
type merger struct {
	out   lref.Grammar
	files int
	bad   string // a name that is not declared
}

// scope of the names in one inclusion of a file
type scope struct {
	mark string
	own  map[string]bool
	refs map[string]string // local name -> name in the whole grammar
	repl map[string]string // replaced name -> name in the whole grammar
}

func (m *merger) file(f *file, repl map[string]string) scope {
	m.files++
	s := scope{mark: fmt.Sprintf("§%d", m.files), own: map[string]bool{}, refs: map[string]string{}, repl: map[string]string{}}
	for n, x := range repl {
		s.repl[n] = x
	}
	for _, t := range f.Tokens {
		s.own[t.Name] = true
	}
	for _, l := range f.Links {
		if l.Repl {
			s.repl[l.Token] = l.Local + s.mark
		}
	}
	for _, l := range f.Links {
		if l.Repl {
			continue
		}
		for _, i := range f.Includes {
			if i.Name != l.Inc {
				continue
			}
			inner := m.file(i.File, s.repl)
			for _, t := range m.out.Tokens {
				if t.Name == l.Token+inner.mark {
					t.Name = l.Local + s.mark + inner.mark
					m.out.Tokens = append(m.out.Tokens, t)
					s.refs[l.Local] = t.Name
					break
				}
			}
			if s.refs[l.Local] == "" {
				m.bad = l.Token
			}
		}
	}
	for _, r := range f.Rules {
		r.Name += s.mark
		m.out.Rules = append(m.out.Rules, r)
	}
	for _, t := range f.Tokens {
		m.out.Tokens = append(m.out.Tokens, lref.Token{Name: t.Name + s.mark, Must: m.lines(s, t.Must), Not: m.lines(s, t.Not)})
	}
	return s
}

func (m *merger) lines(s scope, lines [][]lref.Elem) [][]lref.Elem {
	out := [][]lref.Elem{}
	for _, l := range lines {
		n := []lref.Elem{}
		for _, e := range l {
			switch {
			case e.Switch:
			case e.IsRule():
				e.Name += s.mark
			case s.repl[e.Name] != "":
				e.Name = s.repl[e.Name]
			case s.own[e.Name]:
				e.Name += s.mark
			case s.refs[e.Name] != "":
				e.Name = s.refs[e.Name]
			default:
				m.bad = e.Name
			}
			n = append(n, e)
		}
		out = append(out, n)
	}
	return out
}

var marks = regexp.MustCompile(`(§[0-9]+)+`)

func shown(s string) string { return marks.ReplaceAllString(s, "") }

// merged grammar and the name of the root in it.
func merged(f *file, channels []lref.Token) (lref.Grammar, string, string) {
	m := &merger{}
	s := m.file(f, nil)
	for _, c := range channels {
		m.out.Channels = append(m.out.Channels, lref.Token{Name: c.Name + s.mark, Must: m.lines(s, c.Must)})
	}
	return m.out, f.Tokens[0].Name + s.mark, m.bad
}

func describe(f *file) string {
	out := strings.TrimSpace(f.text(styles[0]))
	for _, r := range f.Rules {
		out += fmt.Sprintf(" %s=%q", r.Name, r.Const)
	}
	for _, i := range f.Includes {
		out += "\n--- " + i.path() + ":\n" + describe(i.File)
	}
	return out
}

// ambiguous tells whether a token that refers to itself shares names with another definition: the engine finds
// it again by its name only, a listed finding.
func ambiguous(g lref.Grammar) bool {
	definition := func(t lref.Token) string {
		out := ""
		for _, l := range append(append([][]lref.Elem{}, t.Must...), append([][]lref.Elem{{}}, t.Not...)...) {
			for _, x := range l {
				if x.IsRule() {
					out += g.Rule(x.Name).Const + x.Card.Text + " "
					continue
				}
				out += shown(x.Name) + x.Card.Text + fmt.Sprint(x.Specs) + " "
			}
			out += "|"
		}
		return out
	}
	// the names that each name refers to
	next := map[string]map[string]bool{}
	for _, t := range g.Tokens {
		n := shown(t.Name)
		if next[n] == nil {
			next[n] = map[string]bool{}
		}
		for _, l := range append(append([][]lref.Elem{}, t.Must...), t.Not...) {
			for _, x := range l {
				if !x.Switch && !x.IsRule() {
					next[n][shown(x.Name)] = true
				}
			}
		}
	}
	recursive := func(name string) bool {
		seen := map[string]bool{}
		var visit func(n string) bool
		visit = func(n string) bool {
			for x := range next[n] {
				if x == name {
					return true
				}
				if !seen[x] {
					seen[x] = true
					if visit(x) {
						return true
					}
				}
			}
			return false
		}
		return visit(name)
	}
	defs := map[string]map[string]bool{}
	different, loops := false, false
	byName := map[string]int{}
	for _, t := range g.Tokens {
		n := shown(t.Name)
		byName[n]++
		if defs[n] == nil {
			defs[n] = map[string]bool{}
		}
		defs[n][definition(t)] = true
		if len(defs[n]) > 1 {
			different = true
		}
	}
	for _, t := range g.Tokens {
		if byName[shown(t.Name)] > 1 && recursive(shown(t.Name)) {
			loops = true
		}
	}
	return different && loops
}
