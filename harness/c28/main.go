// C28: whatever is offered as a definition is read or refused, and means the same however it is spaced.
package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/references"
	"github.com/steve-care-software/steve/domain/languages/lexers/references/links"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// reader reads a kind of definitions, and writes what it read in one canonical way.
type reader struct {
	name  string
	read  func(text string) (string, bool)
	vocab []string   // lexemes
	valid [][]string // texts, as their lexemes; "_" is a space that is needed
	short int        // all texts up to that amount of lexemes
	blind func(text string) bool
}

func quoted(s string) string { return `"` + strings.Replace(s, `"`, `\"`, -1) + `"` }

func writePatterns(list []patterns.Pattern) string {
	groups, series, pats := []string{}, []string{}, []string{}
	seen := map[string]bool{}
	once := func(list *[]string, name, text string) {
		if !seen[name] {
			seen[name] = true
			*list = append(*list, text)
		}
	}
	for _, p := range list {
		cs := []string{}
		for _, c := range p.Content().List() {
			s := c.Serie()
			gs := []string{}
			for _, g := range s.Content().List() {
				os := []string{}
				for _, o := range g.Content().List() {
					os = append(os, strings.Replace(o, `"`, `\"`, -1))
				}
				once(&groups, g.Name(), g.Name()+`:"`+strings.Join(os, ",")+`";`)
				gs = append(gs, g.Name())
			}
			once(&series, s.Name(), s.Name()+":"+strings.Join(gs, ",")+";")
			if c.IsReverse() {
				cs = append(cs, "@"+s.Name())
				continue
			}
			cs = append(cs, s.Name())
		}
		pats = append(pats, p.Name()+":"+strings.Join(cs, ",")+";")
	}
	return strings.Join(pats, "") + strings.Join(series, "") + strings.Join(groups, "")
}

func must(s string, err error) string {
	if err != nil {
		vlib.Failf("what was read is not written: %s", err)
	}
	return s
}

func card(c cardinality.Cardinality) string {
	return must(cardinality.NewAdapter().ToPatternString(c))
}

func writeRules(list []rules.Rule) string {
	out := ""
	for _, r := range list {
		c := r.Element().Content()
		if c.IsConstant() {
			out += r.Name() + ":" + quoted(c.Constant()) + ";"
			continue
		}
		names := []string{}
		for _, p := range c.Pattern().SubPatterns().All() {
			names = append(names, p.Name())
		}
		out += r.Name() + ":[" + strings.Join(names, " ") + "]" + card(c.Pattern().Cardinality()) + ";"
	}
	return out
}

func writeLines(l tokens.Lines) string {
	out := []string{}
	for _, line := range l.All() {
		s := ""
		for _, i := range line.Instructions() {
			if i.IsChannelSwitch() {
				s += "# "
				continue
			}
			e := i.Element()
			s += e.Content().Name()
			if e.HasCardinality() {
				s += card(e.Cardinality())
			}
			if e.Content().IsToken() && e.Content().Token().HasSpecifiers() {
				s += "->"
				for _, x := range e.Content().Token().Specifiers().All() {
					s += x.Content().Name() + must(cardinality.NewSpecificAdapter().ToPatternString(x.Cardinality())) + " "
				}
				s += "<-"
			}
			s += " "
		}
		out = append(out, s)
	}
	return strings.Join(out, "|")
}

func writeTokens(list []tokens.Token) string {
	out := ""
	for _, t := range list {
		out += t.Name() + ":" + writeLines(t.Block().Must())
		if t.Block().HasNot() {
			out += "---:" + writeLines(t.Block().Not())
		}
		if t.HasTestSuite() {
			out += "+++:" + strings.Join(t.TestSuite().Lines(), "###")
		}
		out += ";"
	}
	return out
}

func writeLinks(keyword string, l links.Links) (includes []string, out string) {
	for _, x := range l.All() {
		if x.Include() != nil {
			p := x.Include().Paths()
			s := p.Rules() + ";" + p.Tokens()
			if p.HasChannels() {
				s += ";" + p.Channels()
			}
			includes = append(includes, "include "+x.Include().Name()+` "`+s+`" `)
		}
		name := "nothing"
		if x.Include() != nil {
			name = x.Include().Name()
		}
		if keyword == "reference" {
			out += "reference " + x.LocalToken() + " " + name + "." + x.ReferenceToken() + " "
			continue
		}
		out += "replace " + name + "." + x.ReferenceToken() + " " + x.LocalToken() + " "
	}
	return includes, out
}

var keywords = regexp.MustCompile(`(include|reference|replace) (include|reference|replace)|\.(include|reference|replace)|(include|reference|replace)\.|\.[a-zA-Z]+ (include|reference|replace) (include|reference|replace)|\.[a-zA-Z]+ (include|reference|replace) $`)

func writeReferences(r references.References) string {
	out, names := "", []string{}
	seen := map[string]bool{}
	add := func(l links.Links, keyword string) {
		in, s := writeLinks(keyword, l)
		out += s
		for _, x := range in {
			if !seen[x] {
				seen[x] = true
				names = append(names, x)
			}
		}
	}
	if r.HasReferences() {
		add(r.References(), "reference")
	}
	if r.HasReplacements() {
		add(r.Replacements(), "replace")
	}
	text := strings.Join(names, "") + out
	if keywords.MatchString(text) {
		// a keyword as a name: it is not said whether that is a directive
		return "~" + text
	}
	return text
}

var contents = []string{"", "a", "zb", "ab\n"}

func main() {
	r := vlib.New("C28")
	r.Rule = "for patterns, rules, tokens, references and cardinalities: every text of up to 4-6 lexemes, and of valid texts every insertion, replacement, deletion, repetition and swap of lexemes, every removed stretch, every cut and every inserted or replaced byte, read twice, written and read again, and used; every kind of spacing at every place between lexemes; non-trivial: altered texts that are still read"
	base, err := patterns.NewAdapter().ToPatterns(`any:S;other:@S;S:$G;$G:"z";`)
	if err != nil {
		r.Violate("base", err.Error())
		r.Finish()
	}
	baseRules, err := rules.NewAdapter().Rules(`A:"a";B_C:"b";`, nil)
	if err != nil {
		r.Violate("base", err.Error())
		r.Finish()
	}
	_ = base
	list := []reader{
		{
			name: "patterns", short: 5,
			read: func(text string) (string, bool) {
				v, err := patterns.NewAdapter().ToPatterns(text)
				if (v == nil) == (err == nil) {
					vlib.Failf("neither read nor refused: %v, %v", v, err)
				}
				if err != nil {
					return err.Error(), false
				}
				for _, content := range contents {
					res, err := patterns.NewAdapter().FromPatternsToResult(v, content)
					if (res == nil) == (err == nil) {
						vlib.Failf("%q: neither found nor missing in %q: %v, %v", text, content, res, err)
					}
				}
				return writePatterns(v.All()), true
			},
			vocab: []string{"p", "S", "$G", ":", ";", ",", "@", `"`, "a", `\"`},
			valid: [][]string{
				{"any", ":", "S", ";", "S", ":", "$G", ";", "$G", ":", `"a"`, ";"},
				{"any", ":", "S", ",", "@", "T", ";", "to", ":", "T", ";", "S", ":", "$G", ",", "$H", ";", "T", ":", "$H", ";", "$G", ":", `"a,\",b"`, ";", "$H", ":", `"c"`, ";"},
				{"$G", ":", `"a"`, ";", "S", ":", "$G", ";", "any_x", ":", "@", "S", ";", "b", ":", "S", ",", "S", ";"},
			},
		},
		{
			name: "rules", short: 5,
			read: func(text string) (string, bool) {
				v, err := rules.NewAdapter().Rules(text, base)
				if (v == nil) == (err == nil) {
					vlib.Failf("neither read nor refused: %v, %v", v, err)
				}
				if err != nil {
					return err.Error(), false
				}
				for _, rule := range v.All() {
					for _, content := range contents {
						res, err := results.NewAdapter().ToResult(rule, content)
						if (res == nil) == (err == nil) {
							vlib.Failf("%q: neither found nor missing in %q: %v, %v", text, content, res, err)
						}
					}
				}
				return writeRules(v.All()), true
			},
			vocab: []string{"A", "B_", ":", ";", `"`, `\"`, "[", "]", "any", " ", "+", "{", "}", "2", ","},
			valid: [][]string{
				{"A", ":", `"a"`, ";", "B", ":", `"\"b c"`, ";"},
				{"A", ":", "[", "any", "]", "+", ";", "B", ":", "[", "any", "_", "other", "]", "{", "1", ",", "2", "}", ";", "C", ":", `"x"`, ";"},
				{"A_B", ":", "[", "other", "]", "{", "3", "}", ";", "X", ":", "[", "any", "_", "any", "]", "{", "2", ",", "}", ";", "Y", ":", "[", "any", "]", "*", ";"},
			},
		},
		{
			name: "tokens", short: 5,
			read: func(text string) (string, bool) {
				ad, err := tokens.NewAdapterBuilder().Create().WithRules(baseRules).Now()
				if err != nil {
					vlib.Failf("%s", err)
				}
				v, err := ad.ToTokens(text)
				if (v == nil) == (err == nil) {
					vlib.Failf("neither read nor refused: %v, %v", v, err)
				}
				if err != nil {
					return err.Error(), false
				}
				for _, t := range v.All() {
					if found, err := v.Find(t.Name()); err != nil || found.Name() != t.Name() {
						vlib.Failf("%q: %s is not found: %v", text, t.Name(), err)
					}
					parser, err := asts.NewAdapterBuilder().Create().WithRoot(t).WithTokens(v).Now()
					if (parser == nil) == (err == nil) {
						vlib.Failf("%q: neither resolved nor refused: %v", text, err)
					}
					if err != nil {
						continue
					}
					for _, content := range contents {
						ast, err := parser.ToAST(content)
						if (ast == nil) == (err == nil) || ast != nil && ast.IsSuccess() == ast.IsMistake() {
							vlib.Failf("%q: neither read nor refused: %q: %v", text, content, err)
						}
					}
				}
				return writeTokens(v.All()), true
			},
			vocab: []string{"x", "A", ":", ";", "|", "#", "+", "?", "{", "}", "1", ",", "->", "<-", "---", "+++", "###", " "},
			valid: [][]string{
				{"x", ":", "A", "y", "|", "B_C", "+", "A", ";", "y", ":", "A", "?", "B_C", "{", "2", "}", ";"},
				{"x", ":", "y", "->", "A", "{", "1", "}", "y", "{", "2", ",", "}", "<-", "#", "A", "{", "1", ",", "3", "}", "---", ":", "A", "B_C", "|", "A", "*", ";", "y", ":", "#", "A", "#", "x", "*", ";"},
				{"x", ":", "A", "+", "---", ":", "A", "{", "2", "}", "+++", ":", "a a", "###", "aaa", ";", "y", ":", "x", "+++", ":", "b", ";"},
			},
		},
		{
			name: "references", short: 4,
			read: func(text string) (string, bool) {
				v, err := references.NewAdapter().ToReferences(text)
				if (v == nil) == (err == nil) {
					vlib.Failf("neither read nor refused: %v, %v", v, err)
				}
				if err != nil {
					return err.Error(), false
				}
				return writeReferences(v), true
			},
			vocab: []string{"include ", "reference ", "replace ", "i", "x", ".", " ", `"r;t"`, `"`, ";", "r"},
			valid: [][]string{
				{"include", "_", "lib", "_", `"r;t"`, "_", "reference", "_", "x", "_", "lib", ".", "y", "_"},
				{"include", "_", "lib", "_", `"r;t;c"`, "_", "include", "_", "other", "_", `"q;u"`, "_", "reference", "_", "x", "_", "lib", ".", "y", "_", "replace", "_", "other", ".", "z", "_", "w", "_", "replace", "_", "lib", ".", "z", "_", "x", "_"},
			},
		},
		{
			name: "cardinality", short: 6,
			read: func(text string) (string, bool) {
				v, err := cardinality.NewAdapter().ToCardinality(text)
				if (v == nil) == (err == nil) {
					vlib.Failf("neither read nor refused: %v, %v", v, err)
				}
				if err != nil {
					return err.Error(), false
				}
				return card(v), true
			},
			vocab: []string{"+", "*", "?", "{", "}", ",", "1", "0", " ", "-"},
			valid: [][]string{{"+"}, {"*"}, {"?"}, {"{", "1", "}"}, {"{", "1", ",", "2", "}"}, {"{", "3", ",", "}"}, {"{", "0", ",", "10", "}"}},
		},
	}
	for _, rd := range list {
		rd := rd
		verdict := func(text string) (string, bool) {
			a, ok := rd.read(text)
			r.Step(1)
			b, ok2 := rd.read(text)
			if a != b || ok != ok2 {
				vlib.Failf("%s %q is once %q and then %q", rd.name, text, a, b)
			}
			if ok && !strings.HasPrefix(a, "~") {
				c, again := rd.read(a)
				if !again || c != a {
					vlib.Failf("%s %q is read as %q, which is read as %q", rd.name, text, a, c)
				}
			}
			return a, ok
		}
		words := vlib.Strings(rd.vocab, 0, r.Pick(rd.short, rd.short+1))
		r.Parallel(len(words), func(i int) {
			if i%1024 == 0 && r.Expired(rd.name+" short texts") {
				return
			}
			r.Case(rd.name+":short:"+words[i], func() {
				if a, ok := verdict(words[i]); ok {
					r.Outcome(rd.name + a)
				}
			})
		})
		r.Section(rd.name+": short texts", int64(len(words)))
		for n, lex := range rd.valid {
			plain := func(l []string) string { return strings.Replace(strings.Join(l, ""), "_", " ", -1) }
			plain = func(l []string) string {
				out := ""
				for _, x := range l {
					if x == "_" {
						x = " "
					}
					if rd.name == "tokens" && out != "" && isName(out[len(out)-1]) && isName(x[0]) {
						out += " "
					}
					out += x
				}
				return out
			}
			text := plain(lex)
			want, ok := rd.read(text)
			if !ok {
				r.Violate(fmt.Sprintf("%s:%d", rd.name, n), text+": "+want)
				continue
			}
			r.Case(fmt.Sprintf("%s:%d", rd.name, n), func() { verdict(text) })
			edits := int64(0)
			edit := func(kind string, l []string) {
				edits++
				t := plain(l)
				r.State(rd.name + t)
				r.Case(fmt.Sprintf("%s:%s:%q", rd.name, kind, t), func() {
					if a, ok := verdict(t); ok {
						r.Outcome(rd.name + a)
						r.Nontrivial()
					}
				})
			}
			splice := func(i, del int, ins ...string) []string {
				out := append([]string{}, lex[:i]...)
				out = append(out, ins...)
				return append(out, lex[i+del:]...)
			}
			for i := 0; i <= len(lex); i++ {
				for _, sp := range spaces(lex, i, []string{" ", "\n", "\t", "\r\n", "  \n "}) {
					t := plain(splice(i, 0, sp))
					r.State(rd.name + t)
					r.Case(fmt.Sprintf("%s:spacing:%q", rd.name, t), func() {
						got, ok := verdict(t)
						if !ok || got != want {
							vlib.Failf("%q is read as %q instead of %q", t, got, want)
						}
					})
				}
				edit("cut", lex[:i])
				edit("tail", lex[i:])
				for _, v := range rd.vocab {
					edit("insert", splice(i, 0, v))
					if i < len(lex) {
						edit("replace", splice(i, 1, v))
					}
				}
				if i < len(lex) {
					edit("delete", splice(i, 1))
					edit("twice", splice(i, 0, lex[i]))
				}
				if i+1 < len(lex) {
					edit("swap", splice(i, 2, lex[i+1], lex[i]))
				}
				for j := i + 1; j <= len(lex); j++ {
					edit("remove", splice(i, j-i))
				}
			}
			for i := 0; i <= len(text); i++ {
				for _, c := range []string{"", "a", "A", "\"", "\\", ":", ";", " ", "\n", "\x00", "\xff", "é", "{", "-", "#", "9999999999999999999999"} {
					t := text[:i] + c + text[i:]
					r.State(rd.name + t)
					r.Case(fmt.Sprintf("%s:bytes:%q", rd.name, t), func() { verdict(t) })
					if i < len(text) {
						t2 := text[:i] + c + text[i+1:]
						r.State(rd.name + t2)
						r.Case(fmt.Sprintf("%s:bytes:%q", rd.name, t2), func() { verdict(t2) })
					}
				}
			}
			r.Section(rd.name+": altered texts", edits)
		}
	}
	r.Finish()
}

// spaces gives what may be written before lexeme i: nothing in the tests of a token, which are texts.
func spaces(lex []string, i int, all []string) []string {
	in := false
	for j := 0; j < i; j++ {
		if lex[j] == ":" && j > 0 && lex[j-1] == "+++" {
			in = true
		}
		if lex[j] == ";" {
			in = false
		}
	}
	if in {
		return nil
	}
	return all
}

func isName(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
